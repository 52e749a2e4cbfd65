//! Models of the standard-library leaf operations (slices, vectors, integers, iterators).
use crate::interp::*;
use crate::mir::*;
use crate::term::{self, B, F, T, Z};
use crate::val::*;
use std::rc::Rc;

type Res = R<Cr>;
fn ok(v: V) -> Res {
    Ok(Cr::Val(v))
}
/// slice view of a reference: sequence place, offset, length
pub fn view(i: &mut In, r: &V) -> R<(Ptr, Z, Z)> {
    match r {
        V::Ref(p) => {
            if let Some(PE::S(o, l)) = p.path.last() {
                let mut q = (*p.path).clone();
                q.pop();
                return Ok((Ptr { obj: p.obj, path: Rc::new(q) }, o.clone(), l.clone()));
            }
            let v = i.read(p)?;
            if let V::Ref(_) = v {
                return view(i, &v);
            }
            let l = i.len_of(r)?;
            Ok((p.clone(), Z::k(0), l))
        }
        _ => uns(format!("slice view of {}", short(r))),
    }
}
pub fn sub(p: &Ptr, o: &Z, l: &Z) -> V {
    V::Ref(Ptr { obj: p.obj, path: Rc::new(push_pe(&p.path, &PE::S(o.clone(), l.clone()))) })
}
pub fn elem(p: &Ptr, o: &Z) -> V {
    V::Ref(Ptr { obj: p.obj, path: Rc::new(push_pe(&p.path, &PE::I(o.clone()))) })
}
pub fn seq_of(i: &mut In, r: &V) -> R<Vec<P>> {
    let v = i.read_ref(r)?;
    match v {
        V::Seq(s) => Ok(s.to_vec()),
        V::Ref(_) => seq_of(i, &v),
        _ => uns(format!("sequence behind {}", short(&v))),
    }
}
fn write_seq(i: &mut In, r: &V, s: Vec<P>) -> R<()> {
    i.write_ref(r, V::Seq(Rc::new(s)))
}
/// compare z >= 0; sizes are decided or split, data-dependent comparisons stay symbolic
pub fn cond_ge0(i: &mut In, z: &Z) -> R<Result<bool, B>> {
    if i.cx.prove_ge0(z) {
        return Ok(Ok(true));
    }
    if i.cx.prove_ge0(&z.mul(-1).addk(-1)) {
        return Ok(Ok(false));
    }
    let b = i.ge0_bit(z);
    match i.decide(b)? {
        Some(x) => Ok(Ok(x)),
        None => Ok(Err(b)),
    }
}
/// smaller of two lengths
fn zmin(i: &mut In, a: &Z, b: &Z) -> R<Z> {
    match cond_ge0(i, &b.sub(a))? {
        Ok(true) => Ok(a.clone()),
        Ok(false) => Ok(b.clone()),
        Err(c) => {
            let (x, y) = (i.cx.from_z(a, 64), i.cx.from_z(b, 64));
            let w = i.cx.wite(c, x, y);
            Ok(i.zw(w))
        }
    }
}
/// advance a native iterator: Ok(None) = finished, Some((cond, item))
pub fn it_next(i: &mut In, it: &mut It, back: bool) -> R<Option<(B, V)>> {
    let (lo, hi) = match it {
        It::Slice { lo, hi, .. } | It::Into { lo, hi, .. } | It::Windows { lo, hi, .. } | It::Chunks { lo, hi, .. } => (lo.clone(), hi.clone()),
    };
    let need = match it {
        It::Windows { size, .. } => size.clone(),
        It::Chunks { size, exact: true, .. } => size.clone(),
        _ => Z::k(1),
    };
    let c = match cond_ge0(i, &hi.sub(&lo).sub(&need))? {
        Ok(false) => return Ok(None),
        Ok(true) => T,
        Err(b) => b,
    };
    let r = match it {
        It::Slice { p, lo, hi } => {
            if back {
                *hi = hi.addk(-1);
                elem(p, hi)
            } else {
                let r = elem(p, lo);
                *lo = lo.addk(1);
                r
            }
        }
        It::Into { seq, lo, hi } => {
            let s = seq.seq()?.clone();
            if back {
                *hi = hi.addk(-1);
                seq_get(&mut i.cx, &s, hi)?
            } else {
                let r = seq_get(&mut i.cx, &s, lo)?;
                *lo = lo.addk(1);
                r
            }
        }
        It::Windows { p, lo, hi, size } => {
            if back {
                let r = sub(p, &hi.sub(size), size);
                *hi = hi.addk(-1);
                r
            } else {
                let r = sub(p, lo, size);
                *lo = lo.addk(1);
                r
            }
        }
        It::Chunks { p, lo, hi, size, exact, .. } => {
            if back {
                if !*exact {
                    let n = hi.sub(lo);
                    let (nw, sw) = (i.cx.from_z(&n, 64), i.cx.from_z(size, 64));
                    let rw = i.cx.rem(nw, sw);
                    let rz = i.zw(rw);
                    let l = match cond_ge0(i, &rz.addk(-1))? {
                        Ok(true) => rz,
                        Ok(false) => size.clone(),
                        Err(_) => return uns("data-dependent chunk"),
                    };
                    *hi = hi.sub(&l);
                    sub(p, hi, &l)
                } else {
                    *hi = hi.sub(size);
                    sub(p, hi, size)
                }
            } else {
                let l = if *exact { size.clone() } else { zmin(i, size, &hi.sub(lo))? };
                let r = sub(p, lo, &l);
                *lo = lo.add(&l);
                r
            }
        }
    };
    Ok(Some((c, r)))
}
fn chunk_iter(i: &mut In, r: &V, size: &V, exact: bool) -> Res {
    let (p, o, l) = view(i, r)?;
    let sw = size.w()?;
    let sz = i.zw(sw);
    if !i.require_ge0(&sz.addk(-1), "chunk size must be non-zero")? {
        return Ok(Cr::Diverge);
    }
    let (mut hi, mut rem) = (o.add(&l), Z::k(0));
    if exact {
        let lw = i.cx.from_z(&l, 64);
        let rw = i.cx.rem(lw, sw);
        rem = i.zw(rw);
        hi = hi.sub(&rem);
    }
    ok(V::It(Rc::new(It::Chunks { p, lo: o, hi, size: sz, exact, rem })))
}
/// what `next` on a value of this type resolves to
pub fn next_of(i: &mut In, ty: usize, back: bool) -> R<usize> {
    let k = (ty, if back { "next_back".to_string() } else { "next".to_string() });
    match i.p.iter_next.get(&k) {
        Some(f) => Ok(*f),
        None => uns(format!("no iterator implementation known for {}", i.p.tys[ty].s)),
    }
}
/// one step of any iterator stored behind `r`
pub fn step(i: &mut In, ty: usize, r: &V, back: bool) -> R<Option<V>> {
    let v = i.read_ref(r)?;
    if let V::It(it) = v {
        let mut n = (*it).clone();
        let x = it_next(i, &mut n, back)?;
        i.write_ref(r, V::It(Rc::new(n)))?;
        return Ok(Some(match x {
            None => i.nothing(),
            Some((c, v)) => {
                if c == T {
                    i.some(v)
                } else {
                    i.opt_if(c, v)
                }
            }
        }));
    }
    let f = next_of(i, ty, back)?;
    i.call(f, vec![r.clone()])
}
/// drain an iterator: calls `f` for each item (cond, item); stops when f returns false
pub fn drain(i: &mut In, ty: usize, r: &V, f: &mut dyn FnMut(&mut In, B, V) -> R<bool>) -> R<bool> {
    let mut n = 0u64;
    loop {
        let o = match step(i, ty, r, false)? {
            Some(o) => o,
            None => return Ok(false),
        };
        match &o {
            V::En(d, p) => {
                let c = i.cx.bits(*d)[0];
                match i.decide(c)? {
                    Some(false) => return Ok(true),
                    Some(true) => {
                        let v = p[1][0].clone();
                        if !f(i, T, v)? {
                            return Ok(true);
                        }
                    }
                    None => {
                        i.leak_conds("loop bound", &[c]);
                        let v = p[1][0].clone();
                        if !f(i, c, v)? {
                            return Ok(true);
                        }
                    }
                }
            }
            _ => return uns("iterator item"),
        }
        n += 1;
        if n > 2_000_000 {
            return uns("iterator too long");
        }
    }
}
/// call a closure / function item held behind `fref` (a reference to it)
pub fn call_fn(i: &mut In, ty: usize, fref: &V, args: Vec<V>) -> R<Option<V>> {
    match i.ty(ty).clone() {
        TyK::Closure { mt: Some(f), .. } => i.call(f, vec![fref.clone(), agg(args)]),
        TyK::FnDef(Some(f)) => i.call(f, args),
        TyK::Ref(t, _) => {
            let inner = i.read_ref(fref)?;
            call_fn(i, t, &inner, args)
        }
        _ => match i.read_ref(fref)? {
            V::Fn(f) => i.call(f, args),
            v => uns(format!("call of {}", short(&v))),
        },
    }
}
fn range_name(i: &In, t: usize) -> Option<String> {
    if let TyK::Adt { name, .. } = i.ty(t) {
        let n = name.rsplit("::").next().unwrap_or("");
        if n.starts_with("Range") {
            return Some(n.to_string());
        }
    }
    None
}
/// (start, end) of a range value against a sequence of length len, with panics
fn bounds(i: &mut In, name: &str, v: &V, len: &Z, checked: bool) -> R<Option<(Z, Z)>> {
    let f = match v {
        V::Agg(f) => f.clone(),
        _ => return uns("range value"),
    };
    let mut g = |i: &mut In, k: usize| -> R<Z> {
        let w = f[k].w()?;
        let z = i.zw(w);
        i.note_index(&z);
        Ok(z)
    };
    let (a, b) = match name {
        "Range" => (g(i, 0)?, g(i, 1)?),
        "RangeFrom" => (g(i, 0)?, len.clone()),
        "RangeTo" => (Z::k(0), g(i, 0)?),
        "RangeInclusive" => (g(i, 0)?, g(i, 1)?.addk(1)),
        "RangeToInclusive" => (Z::k(0), g(i, 0)?.addk(1)),
        "RangeFull" => (Z::k(0), len.clone()),
        _ => return uns(format!("range {}", name)),
    };
    if checked {
        if !i.require_ge0(&b.sub(&a), "slice index starts after its end")? {
            return Ok(None);
        }
        if !i.require_ge0(&len.sub(&b), "slice end index out of range")? {
            return Ok(None);
        }
    }
    Ok(Some((a, b)))
}
fn index(i: &mut In, ity: usize, r: &V, idx: &V) -> Res {
    let (p, o, l) = view(i, r)?;
    if let Some(n) = range_name(i, ity) {
        return match bounds(i, &n, idx, &l, true)? {
            None => Ok(Cr::Diverge),
            Some((a, b)) => ok(sub(&p, &o.add(&a), &b.sub(&a))),
        };
    }
    let w = idx.w()?;
    let z = i.zw(w);
    i.note_index(&z);
    if !i.require_ge0(&l.sub(&z).addk(-1), "index out of bounds")? {
        return Ok(Cr::Diverge);
    }
    ok(elem(&p, &o.add(&z)))
}
fn get(i: &mut In, ity: usize, r: &V, idx: &V) -> Res {
    let (p, o, l) = view(i, r)?;
    if let Some(n) = range_name(i, ity) {
        let (a, b) = bounds(i, &n, idx, &l, false)?.unwrap();
        let c1 = cond_ge0(i, &b.sub(&a))?;
        let c2 = cond_ge0(i, &l.sub(&b))?;
        return match (c1, c2) {
            (Ok(true), Ok(true)) => {
                let v = sub(&p, &o.add(&a), &b.sub(&a));
                let r = i.some(v);
                ok(r)
            }
            (Ok(false), _) | (_, Ok(false)) => {
                let r = i.nothing();
                ok(r)
            }
            _ => uns("data-dependent get"),
        };
    }
    let w = idx.w()?;
    let z = i.zw(w);
    i.note_index(&z);
    let e = elem(&p, &o.add(&z));
    let r = match cond_ge0(i, &l.sub(&z).addk(-1))? {
        Ok(true) => i.some(e),
        Ok(false) => i.nothing(),
        Err(c) => i.opt_if(c, e),
    };
    ok(r)
}
fn copy_into(i: &mut In, dst: &V, src: &V, what: &str) -> Res {
    let (_, _, ld) = view(i, dst)?;
    let (_, _, ls) = view(i, src)?;
    if !i.require_ge0(&ld.sub(&ls), what)? || !i.require_ge0(&ls.sub(&ld), what)? {
        return Ok(Cr::Diverge);
    }
    let s = seq_of(i, src)?;
    i.write_ref(dst, V::Seq(Rc::new(s)))?;
    ok(unit())
}
/// element-wise equality of two sequences; all elements are inspected
pub fn seq_eq(i: &mut In, a: &V, b: &V) -> R<B> {
    let (x, y) = (deref_all(i, a)?, deref_all(i, b)?);
    val_eq(i, &x, &y)
}
fn deref_all(i: &mut In, v: &V) -> R<V> {
    let mut v = v.clone();
    while let V::Ref(_) = v {
        v = i.read_ref(&v)?;
    }
    Ok(v)
}
pub fn val_eq(i: &mut In, x: &V, y: &V) -> R<B> {
    if same(&mut i.cx, x, y) {
        return Ok(T);
    }
    match (x, y) {
        (V::W(a), V::W(b)) => Ok(i.cx.eq(*a, *b)),
        (V::Ref(_), _) | (_, V::Ref(_)) => {
            let (x, y) = (deref_all(i, x)?, deref_all(i, y)?);
            val_eq(i, &x, &y)
        }
        (V::Seq(s), V::Seq(t)) => {
            let (ls, lt) = (seq_len(s), seq_len(t));
            match (cond_ge0(i, &ls.sub(&lt))?, cond_ge0(i, &lt.sub(&ls))?) {
                (Ok(true), Ok(true)) => {}
                (Ok(false), _) | (_, Ok(false)) => return Ok(F),
                _ => return uns("comparison of sequences of data-dependent length"),
            }
            let n = match ls.as_k() {
                Some(n) => n,
                None => return uns("comparison of long sequences"),
            };
            let mut r = T;
            for k in 0..n {
                let (p, q) = (seq_get(&mut i.cx, s, &Z::k(k))?, seq_get(&mut i.cx, t, &Z::k(k))?);
                let e = val_eq(i, &p, &q)?;
                r = i.cx.and(r, e);
            }
            Ok(r)
        }
        (V::Agg(s), V::Agg(t)) if s.len() == t.len() => {
            let mut r = T;
            for (p, q) in s.iter().zip(t.iter()) {
                let e = val_eq(i, p, q)?;
                r = i.cx.and(r, e);
            }
            Ok(r)
        }
        _ => uns("comparison"),
    }
}
fn leak_bit(i: &mut In, kind: &str, b: B) {
    i.leak_conds(kind, &[b]);
}
/// an element-wise comparison that stops at the first difference: its running time shows every prefix
fn leak_eq(i: &mut In, a: &V, b: &V) -> R<()> {
    let (x, y) = (deref_all(i, a)?, deref_all(i, b)?);
    if let (V::Seq(s), V::Seq(t)) = (&x, &y) {
        if let (Some(n), Some(m)) = (seq_len(s).as_k(), seq_len(t).as_k()) {
            if n == m {
                let mut r = T;
                let mut cs = vec![];
                for k in 0..n {
                    let (p, q) = (seq_get(&mut i.cx, s, &Z::k(k))?, seq_get(&mut i.cx, t, &Z::k(k))?);
                    let e = val_eq(i, &p, &q)?;
                    r = i.cx.and(r, e);
                    cs.push(r);
                }
                i.leak_conds("early-exit comparison", &cs);
                return Ok(());
            }
            return Ok(());
        }
    }
    let r = val_eq(i, &x, &y)?;
    leak_bit(i, "early-exit comparison", r);
    Ok(())
}
fn clone_val(v: &V) -> V {
    v.clone()
}
fn last(n: &str) -> &str {
    // last path segment, ignoring generic arguments
    let mut depth = 0i32;
    let b = n.as_bytes();
    let mut i = b.len();
    while i > 1 {
        match b[i - 1] {
            b'>' => depth += 1,
            b'<' => depth -= 1,
            b':' if depth == 0 && b[i - 2] == b':' => return &n[i..],
            _ => {}
        }
        i -= 1;
    }
    n
}
fn targ(f: &Fun, k: usize) -> usize {
    match f.targs.get(k) {
        Some(Targ::Ty(t)) => *t,
        _ => usize::MAX,
    }
}
fn arg_ty(f: &Fun, k: usize) -> Option<usize> {
    f.body.as_ref().and_then(|b| b.locals.get(k + 1).cloned())
}
fn is_panic(n: &str) -> bool {
    n.starts_with("core::panicking::")
        || n.starts_with("std::rt::")
        || n.starts_with("std::panicking::")
        || n.starts_with("core::rt::")
        || n.contains("_fail") && (n.starts_with("core::slice") || n.starts_with("core::str"))
        || n.ends_with("unwrap_failed")
        || n.ends_with("expect_failed")
        || n.ends_with("capacity_overflow")
        || n.ends_with("handle_alloc_error")
        || n.ends_with("len_mismatch_fail")
        || n.contains("panic_const")
        || n.contains("::assert_failed")
        || n.contains("panic_bounds_check")
        || n.contains("panic_fmt")
}

pub fn call(i: &mut In, fid: usize, a: &[V]) -> Res {
    let p = i.p;
    let f = &p.fns[fid];
    if f.local {
        return Ok(Cr::Inline);
    }
    let n = f.name.as_str();
    if is_panic(n) {
        let pc = i.st.pc;
        let def = i.definite(pc);
        i.note_panic(&format!("call to {}", last(n)), pc, def);
        return Ok(Cr::Diverge);
    }
    if n == "std::process::abort" || n == "std::intrinsics::abort" || n == "std::process::exit" {
        let pc = i.st.pc;
        let def = i.definite(pc);
        i.note_panic("process abort", pc, def);
        return Ok(Cr::Diverge);
    }
    if n.ends_with("precondition_check") || n == "std::intrinsics::assume" || n == "std::intrinsics::cold_path" || n.starts_with("std::fmt::") || n.starts_with("core::fmt::") {
        return ok(unit());
    }
    if let Some(r) = ints(i, f, n, a)? {
        return Ok(r);
    }
    if let Some(r) = slices(i, f, n, a)? {
        return Ok(r);
    }
    if let Some(r) = vecs(i, f, n, a)? {
        return Ok(r);
    }
    if let Some(r) = iters(i, f, n, a)? {
        return Ok(r);
    }
    if let Some(r) = misc(i, f, n, a)? {
        return Ok(r);
    }
    Ok(Cr::Inline)
}

fn ints(i: &mut In, f: &Fun, n: &str, a: &[V]) -> R<Option<Cr>> {
    let l = last(n);
    let l = l.split("::<").next().unwrap_or(l);
    let is_num = n.starts_with("core::num::<impl ");
    let signed = n.starts_with("core::num::<impl i");
    let intr = n.starts_with("std::intrinsics::") || n.starts_with("core::intrinsics::");
    let val = |v: V| Ok(Some(Cr::Val(v)));
    if is_num || intr {
        let w = |k: usize| a[k].w();
        let signed = if intr { matches!(f.targs.first(), Some(Targ::Ty(t)) if i.signed(*t)) } else { signed };
        match l {
            "wrapping_add" | "unchecked_add" => {
                let r = i.cx.add(w(0)?, w(1)?);
                return val(V::W(r));
            }
            "wrapping_sub" | "unchecked_sub" => {
                let r = i.cx.sub(w(0)?, w(1)?);
                return val(V::W(r));
            }
            "wrapping_mul" | "unchecked_mul" => {
                let r = i.cx.mul(w(0)?, w(1)?);
                return val(V::W(r));
            }
            "wrapping_neg" => {
                let r = i.cx.neg(w(0)?);
                return val(V::W(r));
            }
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = if l.contains("add") {
                    "Add"
                } else if l.contains("sub") {
                    "Sub"
                } else {
                    "Mul"
                };
                let (r, o) = i.checked(op, w(0)?, w(1)?, signed)?;
                let o = i.vb(o);
                return val(agg(vec![V::W(r), o]));
            }
            "checked_add" | "checked_sub" | "checked_mul" => {
                let op = match l {
                    "checked_add" => "Add",
                    "checked_sub" => "Sub",
                    _ => "Mul",
                };
                let (r, o) = i.checked(op, w(0)?, w(1)?, signed)?;
                let c = i.cx.not(o);
                return match i.decide(c)? {
                    Some(true) => {
                        let v = i.some(V::W(r));
                        val(v)
                    }
                    Some(false) => {
                        let v = i.nothing();
                        val(v)
                    }
                    None => {
                        let v = i.opt_if(c, V::W(r));
                        val(v)
                    }
                };
            }
            "saturating_add" | "saturating_sub" | "saturating_mul" if !signed => {
                let op = match l {
                    "saturating_add" => "Add",
                    "saturating_sub" => "Sub",
                    _ => "Mul",
                };
                let (r, o) = i.checked(op, w(0)?, w(1)?, false)?;
                let wd = i.cx.width(r);
                let m = i.cx.konst(wd, if op == "Sub" { 0 } else { term::mask(wd) });
                return match i.decide(o)? {
                    Some(true) => val(V::W(m)),
                    Some(false) => val(V::W(r)),
                    None => {
                        let x = i.cx.wite(o, m, r);
                        val(V::W(x))
                    }
                };
            }
            "rotate_left" | "rotate_right" => {
                let k = match i.cx.as_const(w(1)?) {
                    Some(k) => k as u32,
                    None => return uns("symbolic rotate"),
                };
                let wd = i.cx.width(w(0)?) as u32;
                let k = k % wd;
                let r = i.cx.rotlk(w(0)?, if l == "rotate_left" { k } else { (wd - k) % wd });
                return val(V::W(r));
            }
            "wrapping_shl" | "unchecked_shl" => {
                let r = i.shift(0, w(0)?, w(1)?)?;
                return val(V::W(r));
            }
            "wrapping_shr" | "unchecked_shr" => {
                let r = i.shift(if signed { 2 } else { 1 }, w(0)?, w(1)?)?;
                return val(V::W(r));
            }
            "swap_bytes" | "to_be" | "from_be" | "bswap" => {
                let r = i.cx.bswap(w(0)?);
                return val(V::W(r));
            }
            "to_le" | "from_le" => return val(a[0].clone()),
            "to_be_bytes" => {
                let x = i.cx.bswap(w(0)?);
                let n = i.cx.width(x) / 8;
                let v = i.le_bytes(x, n as usize);
                return val(v);
            }
            "to_le_bytes" | "to_ne_bytes" => {
                let n = i.cx.width(w(0)?) / 8;
                let v = i.le_bytes(w(0)?, n as usize);
                return val(v);
            }
            "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                let s = a[0].seq()?.clone();
                let mut ws = words_of(&mut i.cx, &s)?;
                if l == "from_be_bytes" {
                    ws.reverse();
                }
                let r = i.from_le(&ws);
                return val(V::W(r));
            }
            "reverse_bits" => {
                let mut b = i.cx.bits(w(0)?).to_vec();
                b.reverse();
                let r = i.cx.mk_bits(b);
                return val(V::W(r));
            }
            "is_power_of_two" => {
                let x = w(0)?;
                if i.cx.pow2.contains(&x) {
                    let v = i.vb(T);
                    return val(v);
                }
                let wd = i.cx.width(x);
                let bits = i.cx.bits(x);
                let used = bits.iter().filter(|q| **q != F).count();
                if used < wd as usize || bits.iter().any(|q| *q == T) {
                    // exactly one bit set
                    let (mut none, mut one) = (T, F);
                    for q in bits.iter() {
                        let n1 = i.cx.ite(*q, none, one);
                        let nq = i.cx.not(*q);
                        none = i.cx.and(none, nq);
                        one = n1;
                    }
                    let v = i.vb(one);
                    return val(v);
                }
                let one = i.cx.konst(wd, 1);
                let y = i.cx.sub(x, one);
                let an = i.cx.wand(x, y);
                let z = i.cx.konst(wd, 0);
                let e = i.cx.eq(an, z);
                let nz = i.cx.eq(x, z);
                let nz = i.cx.not(nz);
                let r = i.cx.and(e, nz);
                let v = i.vb(r);
                return val(v);
            }
            "pow" => {
                if let (Some(b), Some(e)) = (i.cx.as_const(w(0)?), i.cx.as_const(w(1)?)) {
                    let wd = i.cx.width(w(0)?);
                    let mut r: u128 = 1;
                    for _ in 0..e {
                        r = match r.checked_mul(b) {
                            Some(x) if x <= term::mask(wd) => x,
                            _ => {
                                let pc = i.st.pc;
                                i.note_panic("overflow in pow", pc, true);
                                return Ok(Some(Cr::Diverge));
                            }
                        };
                    }
                    let v = i.cx.konst(wd, r);
                    return val(V::W(v));
                }
                return uns("symbolic pow");
            }
            "count_ones" | "ctpop" | "leading_zeros" | "ctlz" | "trailing_zeros" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let x = w(0)?;
                let wd = i.cx.width(x) as u32;
                if let Some(k) = i.cx.as_const(x) {
                    let r = match l {
                        "count_ones" | "ctpop" => k.count_ones(),
                        "leading_zeros" | "ctlz" | "ctlz_nonzero" => k.leading_zeros() - (128 - wd),
                        _ => k.trailing_zeros().min(wd),
                    };
                    let v = i.cx.konst(32, r as u128);
                    return val(V::W(v));
                }
                let b = i.cx.bits(x);
                if l == "count_ones" || l == "ctpop" {
                    let mut cnt = vec![F; 32];
                    for q in b.iter() {
                        let mut carry = *q;
                        for c in cnt.iter_mut().take(8) {
                            let n = i.cx.xor(*c, carry);
                            carry = i.cx.and(*c, carry);
                            *c = n;
                        }
                    }
                    let r = i.cx.mk_bits(cnt);
                    return val(V::W(r));
                }
                let mut r = i.cx.konst(32, wd as u128);
                let lead = l.contains("lead") || l.starts_with("ctlz");
                for k in 0..wd {
                    let (pos, v) = if lead { (k, wd - 1 - k) } else { (wd - 1 - k, wd - 1 - k) };
                    let c = i.cx.konst(32, v as u128);
                    r = i.cx.wite(b[pos as usize], c, r);
                }
                return val(V::W(r));
            }
            "abs_diff" => return Ok(None),
            "integer_max" | "integer_min" => {
                let t = match f.targs.first() {
                    Some(Targ::Ty(t)) => *t,
                    _ => return uns("integer_max"),
                };
                let wd = i.bits_of(t).unwrap_or(64);
                let sg = i.signed(t);
                let _ = wd;
                let (x, y) = (a[0].w()?, a[1].w()?);
                let lt = if sg { i.cx.slt(x, y) } else { i.cx.ult(x, y) };
                let (p, q) = if l == "integer_min" { (x, y) } else { (y, x) };
                return match i.decide(lt)? {
                    Some(true) => val(V::W(p)),
                    Some(false) => val(V::W(q)),
                    None => {
                        let w = i.cx.wite(lt, p, q);
                        val(V::W(w))
                    }
                };
            }
            "black_box" => return val(a[0].clone()),
            "likely" | "unlikely" => return val(a[0].clone()),
            "size_of" => {
                if let Some(Targ::Ty(t)) = f.targs.first() {
                    if let Some(s) = i.p.tys[*t].size {
                        let v = i.k64(s as u128);
                        return val(v);
                    }
                }
                return uns("size_of");
            }
            "discriminant_value" => {
                let r = i.read_ref(&a[0])?;
                let t = targ(f, 0);
                let d = i.discr(&r, t, 64)?;
                return val(V::W(d));
            }
            "three_way_compare" => {
                let t = targ(f, 0);
                let v = i.binop("Cmp", &a[0], &a[1], t)?;
                return val(v);
            }
            "needs_drop" => {
                let v = i.vb(F);
                return val(v);
            }
            "ub_checks" | "contract_checks" | "overflow_checks" => {
                let v = i.vb(F);
                return val(v);
            }
            _ => {}
        }
    }
    if n == "std::mem::size_of" || n == "core::mem::size_of" {
        if let Some(Targ::Ty(t)) = f.targs.first() {
            if let Some(s) = i.p.tys[*t].size {
                let v = i.k64(s as u128);
                return val(v);
            }
        }
    }
    Ok(None)
}

fn slices(i: &mut In, f: &Fun, n: &str, a: &[V]) -> R<Option<Cr>> {
    let l = last(n);
    let l = l.split("::<").next().unwrap_or(l);
    let sl_impl = n.starts_with("core::slice::<impl [T]>::")
        || n.starts_with("std::slice::<impl [T]>::")
        || n.starts_with("alloc::slice::<impl [T]>::")
        || n.starts_with("core::slice::ascii")
        || n.starts_with("core::array::<impl [T; N]>::")
        || n.starts_with("std::array::<impl [T; N]>::");
    if n.contains("std::ops::Index<I> for") || n.contains("std::ops::IndexMut<I> for") || n.contains("as std::ops::Index<I>>::index") || n.contains("as std::ops::IndexMut<I>>::index_mut") {
        let t = arg_ty(f, 1).unwrap_or_else(|| targ(f, 1));
        if t == usize::MAX {
            return uns(format!("index type of {}", f.full));
        }
        return Ok(Some(index(i, t, &a[0], &a[1])?));
    }
    if n.contains("as std::slice::SliceIndex<[T]>>::") {
        let t = arg_ty(f, 0);
        let t = match t {
            Some(t) => t,
            None => return uns(format!("index type of {}", f.full)),
        };
        return Ok(Some(match l {
            "index" | "index_mut" => index(i, t, &a[1], &a[0])?,
            "get" | "get_mut" => get(i, t, &a[1], &a[0])?,
            _ => return uns(n),
        }));
    }
    if n.contains("std::iter::IntoIterator for &'a [T]") || n.contains("std::iter::IntoIterator for &'a mut [T]") || n.contains("as std::iter::IntoIterator>::into_iter") && (n.starts_with("<&'a std::vec::Vec") || n.starts_with("<&'a mut std::vec::Vec")) || n.contains("IntoIterator for &'a [T; N]") || n.contains("IntoIterator for &'a mut [T; N]") {
        let (p, o, len) = view(i, &a[0])?;
        return Ok(Some(Cr::Val(V::It(Rc::new(It::Slice { p, lo: o.clone(), hi: o.add(&len) })))));
    }
    if n.contains("IntoIterator for [T; N]") {
        let len = seq_len(a[0].seq()?);
        return Ok(Some(Cr::Val(V::It(Rc::new(It::Into { seq: a[0].clone(), lo: Z::k(0), hi: len })))));
    }
    if n.contains("PartialEq") && (l == "eq" || l == "ne") && (n.contains("[") || n.contains("Vec<")) {
        let r = seq_eq(i, &a[0], &a[1])?;
        leak_eq(i, &a[0], &a[1])?;
        let r = if l == "ne" { i.cx.not(r) } else { r };
        let v = i.vb(r);
        return Ok(Some(Cr::Val(v)));
    }
    if n.contains("Clone for [T; N]") || n == "std::array::<impl std::clone::Clone for [T; N]>::clone" {
        let v = i.read_ref(&a[0])?;
        return Ok(Some(Cr::Val(v)));
    }
    if (n.contains("Default for [T; N]") || n.contains("Default for [T;")) && l == "default" {
        return Ok(None);
    }
    if n == "std::array::from_fn" || n == "core::array::from_fn" {
        return Ok(None);
    }
    if n.contains("TryFrom<&'a [T]> for &'a [T; N]") || n.contains("TryFrom<&[T]> for [T; N]") || n.contains("TryFrom<&'a mut [T]> for &'a mut [T; N]") || n.contains("TryFrom<&mut [T]> for [T; N]") {
        let want = f.targs.iter().rev().find_map(|t| if let Targ::Const(Some(k)) = t { Some(*k) } else { None });
        let want = match want {
            Some(w) => w,
            None => return uns("array conversion"),
        };
        let (_, _, len) = view(i, &a[0])?;
        let d = len.addk(-(want as i128));
        let good = match (cond_ge0(i, &d)?, cond_ge0(i, &d.mul(-1))?) {
            (Ok(true), Ok(true)) => true,
            (Ok(false), _) | (_, Ok(false)) => false,
            _ => return uns("data-dependent conversion"),
        };
        let v = if good {
            let x = if n.contains("for &'a") { a[0].clone() } else { V::Seq(Rc::new(seq_of(i, &a[0])?)) };
            i.mk_enum(2, 0, vec![x])
        } else {
            i.mk_enum(2, 1, vec![unit()])
        };
        return Ok(Some(Cr::Val(v)));
    }
    if !sl_impl && !n.starts_with("core::array::") && !n.starts_with("std::array::") {
        return Ok(None);
    }
    let r = match l {
        "len" => {
            let z = i.len_of(&a[0])?;
            let (_, _, z2) = view(i, &a[0]).unwrap_or((Ptr { obj: 0, path: Rc::new(vec![]) }, Z::k(0), z));
            let v = i.vz(&z2);
            ok(v)
        }
        "is_empty" => {
            let z = i.len_of(&a[0])?;
            let b = i.ge0_bit(&z.mul(-1));
            let v = i.vb(b);
            ok(v)
        }
        "iter" | "iter_mut" => {
            let (p, o, len) = view(i, &a[0])?;
            ok(V::It(Rc::new(It::Slice { p, lo: o.clone(), hi: o.add(&len) })))
        }
        "chunks" | "chunks_mut" => chunk_iter(i, &a[0], &a[1], false),
        "chunks_exact" | "chunks_exact_mut" => chunk_iter(i, &a[0], &a[1], true),
        "windows" => {
            let (p, o, len) = view(i, &a[0])?;
            let w = a[1].w()?;
            let size = i.zw(w);
            if !i.require_ge0(&size.addk(-1), "window size must be non-zero")? {
                return Ok(Some(Cr::Diverge));
            }
            ok(V::It(Rc::new(It::Windows { p, lo: o.clone(), hi: o.add(&len), size })))
        }
        "copy_from_slice" | "clone_from_slice" => copy_into(i, &a[0], &a[1], "source and destination slices have different lengths"),
        "swap_with_slice" => {
            let (x, y) = (seq_of(i, &a[0])?, seq_of(i, &a[1])?);
            if !i.require_ge0(&seq_len(&x).sub(&seq_len(&y)), "length mismatch")? || !i.require_ge0(&seq_len(&y).sub(&seq_len(&x)), "length mismatch")? {
                return Ok(Some(Cr::Diverge));
            }
            write_seq(i, &a[0], y)?;
            write_seq(i, &a[1], x)?;
            ok(unit())
        }
        "fill" => {
            let (_, _, len) = view(i, &a[0])?;
            write_seq(i, &a[0], vec![P::Rep(Rc::new(a[1].clone()), len)])?;
            norm(i, &a[0])?;
            ok(unit())
        }
        "split_at" | "split_at_mut" => {
            let (p, o, len) = view(i, &a[0])?;
            let w = a[1].w()?;
            let m = i.zw(w);
            if !i.require_ge0(&len.sub(&m), "mid > len")? {
                return Ok(Some(Cr::Diverge));
            }
            ok(agg(vec![sub(&p, &o, &m), sub(&p, &o.add(&m), &len.sub(&m))]))
        }
        "split_at_unchecked" | "split_at_mut_unchecked" => {
            let (p, o, len) = view(i, &a[0])?;
            let w = a[1].w()?;
            let m = i.zw(w);
            ok(agg(vec![sub(&p, &o, &m), sub(&p, &o.add(&m), &len.sub(&m))]))
        }
        "first" | "last" | "first_mut" | "last_mut" => {
            let (p, o, len) = view(i, &a[0])?;
            let e = if l.starts_with("first") { elem(&p, &o) } else { elem(&p, &o.add(&len).addk(-1)) };
            let v = match cond_ge0(i, &len.addk(-1))? {
                Ok(true) => i.some(e),
                Ok(false) => i.nothing(),
                Err(c) => i.opt_if(c, e),
            };
            ok(v)
        }
        "split_first" | "split_last" | "split_first_mut" | "split_last_mut" => {
            let (p, o, len) = view(i, &a[0])?;
            let v = match cond_ge0(i, &len.addk(-1))? {
                Ok(true) => {
                    let t = if l.starts_with("split_first") {
                        agg(vec![elem(&p, &o), sub(&p, &o.addk(1), &len.addk(-1))])
                    } else {
                        agg(vec![elem(&p, &o.add(&len).addk(-1)), sub(&p, &o, &len.addk(-1))])
                    };
                    i.some(t)
                }
                Ok(false) => i.nothing(),
                Err(_) => return uns("data-dependent split"),
            };
            ok(v)
        }
        "get" | "get_mut" => {
            let t = targ(f, 1);
            if t == usize::MAX {
                return uns("get");
            }
            get(i, t, &a[0], &a[1])
        }
        "to_vec" | "into_vec" | "to_owned" | "into_boxed_slice" => {
            let s = seq_of(i, &a[0])?;
            ok(V::Seq(Rc::new(s)))
        }
        "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "each_ref" if l != "each_ref" => ok(a[0].clone()),
        "swap" => {
            let (p, o, len) = view(i, &a[0])?;
            let (x, y) = (a[1].w()?, a[2].w()?);
            let (x, y) = (i.zw(x), i.zw(y));
            i.note_index(&x);
            i.note_index(&y);
            if !i.require_ge0(&len.sub(&x).addk(-1), "index out of bounds")? || !i.require_ge0(&len.sub(&y).addk(-1), "index out of bounds")? {
                return Ok(Some(Cr::Diverge));
            }
            let (ex, ey) = (elem(&p, &o.add(&x)), elem(&p, &o.add(&y)));
            let (vx, vy) = (i.read_ref(&ex)?, i.read_ref(&ey)?);
            i.write_ref(&ex, vy)?;
            i.write_ref(&ey, vx)?;
            ok(unit())
        }
        "reverse" => {
            let s = seq_of(i, &a[0])?;
            let n = match seq_len(&s).as_k() {
                Some(n) => n,
                None => return uns("reverse of a symbolic length"),
            };
            let mut v = vec![];
            for k in (0..n).rev() {
                v.push(seq_get(&mut i.cx, &s, &Z::k(k))?);
            }
            write_seq(i, &a[0], vec![P::El(Rc::new(v))])?;
            ok(unit())
        }
        "rotate_left" | "rotate_right" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            let len = seq_len(&s);
            if !i.require_ge0(&len.sub(&k), "rotation exceeds length")? {
                return Ok(Some(Cr::Diverge));
            }
            let k = if l == "rotate_left" { k } else { len.sub(&k) };
            let x = seq_slice(&mut i.cx, &s, &Z::k(0), &k)?;
            let y = seq_slice(&mut i.cx, &s, &k, &len.sub(&k))?;
            let r = seq_cat(&mut i.cx, &y, &x);
            write_seq(i, &a[0], r)?;
            ok(unit())
        }
        "copy_within" => return uns(n),
        "concat" | "join" => {
            let s = seq_of(i, &a[0])?;
            let n = match seq_len(&s).as_k() {
                Some(n) => n,
                None => return uns("concat of a symbolic number of parts"),
            };
            let mut out = vec![];
            for k in 0..n {
                let x = seq_get(&mut i.cx, &s, &Z::k(k))?;
                let x = deref_all(i, &x)?;
                let q = x.seq()?.clone();
                out = seq_cat(&mut i.cx, &out, &q);
            }
            ok(V::Seq(Rc::new(out)))
        }
        "contains" => {
            let s = seq_of(i, &a[0])?;
            let n = match seq_len(&s).as_k() {
                Some(n) => n,
                None => return uns("contains"),
            };
            let x = i.read_ref(&a[1])?;
            let mut r = F;
            for k in 0..n {
                let y = seq_get(&mut i.cx, &s, &Z::k(k))?;
                let e = val_eq(i, &x, &y)?;
                r = i.cx.or(r, e);
                leak_bit(i, "early-exit search", r);
            }
            let v = i.vb(r);
            ok(v)
        }
        "starts_with" | "ends_with" => {
            let (p, o, len) = view(i, &a[0])?;
            let (_, _, nl) = view(i, &a[1])?;
            match cond_ge0(i, &len.sub(&nl))? {
                Ok(true) => {
                    let x = if l == "starts_with" { sub(&p, &o, &nl) } else { sub(&p, &o.add(&len).sub(&nl), &nl) };
                    let r = seq_eq(i, &x, &a[1])?;
                    leak_eq(i, &x, &a[1])?;
                    let v = i.vb(r);
                    ok(v)
                }
                Ok(false) => {
                    let v = i.vb(F);
                    ok(v)
                }
                _ => uns("starts_with"),
            }
        }
        "repeat" => {
            let s = seq_of(i, &a[0])?;
            let k = match i.cx.as_const(a[1].w()?) {
                Some(k) => k,
                None => return uns("repeat"),
            };
            let mut out = vec![];
            for _ in 0..k {
                out = seq_cat(&mut i.cx, &out, &s);
            }
            ok(V::Seq(Rc::new(out)))
        }
        "map" if n.contains("[T; N]") => {
            let s = a[0].seq()?.clone();
            let n = seq_len(&s).as_k().ok_or(E::Unsupported("map".into()))?;
            let ft = targ(f, 2);
            let fp = i.alloc(a[1].clone());
            let mut out = vec![];
            // element types: [T, N, F, U] in some order; find the callable
            let mut cand = ft;
            for t in &f.targs {
                if let Targ::Ty(t) = t {
                    if matches!(i.ty(*t), TyK::Closure { .. } | TyK::FnDef(_)) {
                        cand = *t;
                    }
                }
            }
            for k in 0..n {
                let x = seq_get(&mut i.cx, &s, &Z::k(k))?;
                match call_fn(i, cand, &V::Ref(fp.clone()), vec![x])? {
                    Some(v) => out.push(v),
                    None => return Ok(Some(Cr::Diverge)),
                }
            }
            ok(el(out))
        }
        _ => {
            if f.body.is_some() {
                return Ok(None);
            }
            return uns(format!("no model for {}", f.full));
        }
    };
    Ok(Some(r?))
}
/// expand constant-length repetitions so that in-place element updates are cheap
fn norm(i: &mut In, r: &V) -> R<()> {
    let s = seq_of(i, r)?;
    if let Some(v) = all_el(&s) {
        if v.len() <= 1 << 16 {
            write_seq(i, r, vec![P::El(Rc::new(v))])?;
        }
    }
    Ok(())
}

fn vecs(i: &mut In, f: &Fun, n: &str, a: &[V]) -> R<Option<Cr>> {
    let l = last(n);
    let l = l.split("::<").next().unwrap_or(l);
    if n == "std::vec::from_elem" {
        let w = a[1].w()?;
        let z = i.zw(w);
        let v = match z.as_k() {
            Some(k) if k <= 1 << 16 => el(vec![a[0].clone(); k as usize]),
            _ => V::Seq(Rc::new(vec![P::Rep(Rc::new(a[0].clone()), z)])),
        };
        return Ok(Some(Cr::Val(v)));
    }
    let vec_impl = n.starts_with("std::vec::Vec::<") || n.starts_with("alloc::vec::Vec::<");
    let vec_trait = n.starts_with("<std::vec::Vec<") || n.starts_with("<alloc::vec::Vec<");
    if vec_trait {
        if n.contains("std::ops::Deref") && (l == "deref" || l == "deref_mut") || n.contains("AsRef") || n.contains("AsMut") || n.contains("Borrow") {
            return Ok(Some(Cr::Val(a[0].clone())));
        }
        if n.contains("std::clone::Clone>::clone") && l == "clone" {
            let v = i.read_ref(&a[0])?;
            return Ok(Some(Cr::Val(clone_val(&v))));
        }
        if l == "clone_from" {
            let v = i.read_ref(&a[1])?;
            i.write_ref(&a[0], v)?;
            return Ok(Some(Cr::Val(unit())));
        }
        if n.contains("std::iter::IntoIterator>::into_iter") {
            let len = seq_len(a[0].seq()?);
            return Ok(Some(Cr::Val(V::It(Rc::new(It::Into { seq: a[0].clone(), lo: Z::k(0), hi: len })))));
        }
        if n.contains("std::default::Default>::default") {
            return Ok(Some(Cr::Val(V::Seq(Rc::new(vec![])))));
        }
        if n.contains("FromIterator") && l == "from_iter" || l == "from_iter" && n.contains("SpecFromIter") {
            let t = match arg_ty(f, 0) {
                Some(t) => t,
                None => targ(f, 1),
            };
            return Ok(Some(collect(i, t, &a[0])?));
        }
        if n.contains("std::iter::Extend<") && l == "extend" || l == "spec_extend" {
            let t = match arg_ty(f, 1) {
                Some(t) => t,
                None => targ(f, 2),
            };
            return Ok(Some(extend(i, t, &a[0], &a[1])?));
        }
        if n.contains("std::convert::From<") && l == "from" {
            let v = match &a[0] {
                V::Ref(_) => V::Seq(Rc::new(seq_of(i, &a[0])?)),
                v => v.clone(),
            };
            return Ok(Some(Cr::Val(v)));
        }
        return Ok(None);
    }
    if !vec_impl {
        return Ok(None);
    }
    let r = match l {
        "new" | "with_capacity" => ok(V::Seq(Rc::new(vec![]))),
        "len" => {
            let z = i.len_of(&a[0])?;
            let v = i.vz(&z);
            ok(v)
        }
        "is_empty" => {
            let z = i.len_of(&a[0])?;
            let b = i.ge0_bit(&z.mul(-1));
            let v = i.vb(b);
            ok(v)
        }
        "reserve" | "reserve_exact" | "shrink_to_fit" => ok(unit()),
        "capacity" => return uns("capacity"),
        "as_slice" | "as_mut_slice" => ok(a[0].clone()),
        "push" => {
            let mut s = seq_take(i, &a[0])?;
            seq_push(&mut i.cx, Rc::make_mut(&mut s), P::El(Rc::new(vec![a[1].clone()])));
            i.write_ref(&a[0], V::Seq(s))?;
            ok(unit())
        }
        "pop" => {
            let s = seq_of(i, &a[0])?;
            let len = seq_len(&s);
            match cond_ge0(i, &len.addk(-1))? {
                Ok(true) => {
                    let x = seq_get(&mut i.cx, &s, &len.addk(-1))?;
                    let r = seq_slice(&mut i.cx, &s, &Z::k(0), &len.addk(-1))?;
                    write_seq(i, &a[0], r)?;
                    let v = i.some(x);
                    ok(v)
                }
                Ok(false) => {
                    let v = i.nothing();
                    ok(v)
                }
                Err(_) => uns("data-dependent pop"),
            }
        }
        "clear" => {
            write_seq(i, &a[0], vec![])?;
            ok(unit())
        }
        "truncate" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            let len = seq_len(&s);
            match cond_ge0(i, &len.sub(&k))? {
                Ok(true) => {
                    let r = seq_slice(&mut i.cx, &s, &Z::k(0), &k)?;
                    write_seq(i, &a[0], r)?;
                }
                Ok(false) => {}
                Err(_) => return trunc_data(i, &a[0], s, &k).map(Some),
            }
            ok(unit())
        }
        "resize" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            let len = seq_len(&s);
            let r = match cond_ge0(i, &len.sub(&k))? {
                Ok(true) => seq_slice(&mut i.cx, &s, &Z::k(0), &k)?,
                Ok(false) => {
                    let d = k.sub(&len);
                    let fill = match d.as_k() {
                        Some(c) if c <= 1 << 16 => P::El(Rc::new(vec![a[2].clone(); c as usize])),
                        _ => P::Rep(Rc::new(a[2].clone()), d),
                    };
                    seq_cat(&mut i.cx, &s, &[fill])
                }
                Err(_) => return uns("data-dependent resize"),
            };
            write_seq(i, &a[0], r)?;
            ok(unit())
        }
        "extend_from_slice" => {
            let s = seq_of(i, &a[1])?;
            let v = seq_of(i, &a[0])?;
            let r = seq_cat(&mut i.cx, &v, &s);
            write_seq(i, &a[0], r)?;
            ok(unit())
        }
        "append" => {
            let s = seq_of(i, &a[1])?;
            let v = seq_of(i, &a[0])?;
            let r = seq_cat(&mut i.cx, &v, &s);
            write_seq(i, &a[0], r)?;
            write_seq(i, &a[1], vec![])?;
            ok(unit())
        }
        "split_off" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            let len = seq_len(&s);
            if !i.require_ge0(&len.sub(&k), "split_off index out of range")? {
                return Ok(Some(Cr::Diverge));
            }
            let x = seq_slice(&mut i.cx, &s, &Z::k(0), &k)?;
            let y = seq_slice(&mut i.cx, &s, &k, &len.sub(&k))?;
            write_seq(i, &a[0], x)?;
            ok(V::Seq(Rc::new(y)))
        }
        "drain" => {
            let s = seq_of(i, &a[0])?;
            let len = seq_len(&s);
            let t = match arg_ty(f, 1) {
                Some(t) => t,
                None => targ(f, 2),
            };
            let t = if range_name(i, t).is_some() { t } else { targ(f, f.targs.len() - 1) };
            let nm = range_name(i, t).ok_or(E::Unsupported("drain".into()))?;
            match bounds(i, &nm, &a[1], &len, true)? {
                None => return Ok(Some(Cr::Diverge)),
                Some((x, y)) => {
                    let mid = seq_slice(&mut i.cx, &s, &x, &y.sub(&x))?;
                    let r = seq_splice(&mut i.cx, &s, &x, &y.sub(&x), &[])?;
                    write_seq(i, &a[0], r)?;
                    ok(V::It(Rc::new(It::Into { seq: V::Seq(Rc::new(mid)), lo: Z::k(0), hi: y.sub(&x) })))
                }
            }
        }
        "insert" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            if !i.require_ge0(&seq_len(&s).sub(&k), "insertion index out of range")? {
                return Ok(Some(Cr::Diverge));
            }
            let r = seq_splice(&mut i.cx, &s, &k, &Z::k(0), &[P::El(Rc::new(vec![a[2].clone()]))])?;
            write_seq(i, &a[0], r)?;
            ok(unit())
        }
        "remove" | "swap_remove" => {
            let s = seq_of(i, &a[0])?;
            let w = a[1].w()?;
            let k = i.zw(w);
            let len = seq_len(&s);
            if !i.require_ge0(&len.sub(&k).addk(-1), "removal index out of range")? {
                return Ok(Some(Cr::Diverge));
            }
            let x = seq_get(&mut i.cx, &s, &k)?;
            let r = if l == "remove" {
                seq_splice(&mut i.cx, &s, &k, &Z::k(1), &[])?
            } else {
                return uns("swap_remove");
            };
            write_seq(i, &a[0], r)?;
            ok(x)
        }
        "into_boxed_slice" => ok(a[0].clone()),
        _ => {
            return uns(format!("no model for {}", f.full));
        }
    };
    Ok(Some(r?))
}
/// truncation to a data-dependent length bounded by a small constant
fn trunc_data(i: &mut In, r: &V, s: Vec<P>, k: &Z) -> Res {
    let n = match seq_len(&s).as_k() {
        Some(n) if n <= 64 => n,
        _ => return uns("data-dependent truncate"),
    };
    let kw = i.cx.from_z(k, 64);
    let mut acc = V::Seq(Rc::new(s.clone()));
    for c in 0..n {
        let x = V::Seq(Rc::new(seq_slice(&mut i.cx, &s, &Z::k(0), &Z::k(c))?));
        let cw = i.cx.konst(64, c as u128);
        let e = i.cx.eq(kw, cw);
        acc = ite(&mut i.cx, e, &x, &acc)?;
    }
    i.write_ref(r, acc)?;
    ok(unit())
}
/// take the sequence out of its place (so that it can be extended without copying)
fn seq_take(i: &mut In, r: &V) -> R<Rc<Vec<P>>> {
    let v = i.read_ref(r)?;
    let s = v.seq()?.clone();
    drop(v);
    i.write_ref(r, V::Undef)?;
    Ok(s)
}
fn collect(i: &mut In, t: usize, it: &V) -> Res {
    if let V::It(x) = it {
        if let It::Into { seq, lo, hi } = &**x {
            let s = seq.seq()?.clone();
            let r = seq_slice(&mut i.cx, &s, lo, &hi.sub(lo))?;
            return ok(V::Seq(Rc::new(r)));
        }
    }
    let p = i.alloc(it.clone());
    let acc = i.alloc(V::Seq(Rc::new(vec![])));
    let ar = V::Ref(acc.clone());
    let done = crate::loops::native_loop(i, &mut |i| {
        let mut n = 0;
        let fin = drain(i, t, &V::Ref(p.clone()), &mut |i, c, v| {
            if c != T {
                return uns("collect of a data-dependent number of items");
            }
            let mut s = seq_take(i, &ar)?;
            seq_push(&mut i.cx, Rc::make_mut(&mut s), P::El(Rc::new(vec![v])));
            i.write_ref(&ar, V::Seq(s))?;
            n += 1;
            Ok(false)
        })?;
        Ok(if !fin { None } else { Some(n > 0) })
    })?;
    if !done {
        return Ok(Cr::Diverge);
    }
    let v = i.read(&acc)?;
    ok(v)
}
fn extend(i: &mut In, t: usize, vec: &V, it: &V) -> Res {
    // arguments that are sequences or references to sequences
    match it {
        V::Seq(s) => {
            let v = seq_of(i, vec)?;
            let r = seq_cat(&mut i.cx, &v, s);
            write_seq(i, vec, r)?;
            return ok(unit());
        }
        V::Ref(_) => {
            if !matches!(i.ty(t), TyK::Ref(x, _) if !matches!(i.ty(*x), TyK::Slice(_) | TyK::Array(..)) && !i.p.tys[*x].s.starts_with("std::vec::Vec<")) {
                let s = seq_of(i, it)?;
                let v = seq_of(i, vec)?;
                let r = seq_cat(&mut i.cx, &v, &s);
                write_seq(i, vec, r)?;
                return ok(unit());
            }
        }
        V::It(x) => {
            let s = match &**x {
                It::Into { seq, lo, hi } => {
                    let s = seq.seq()?.clone();
                    Some(seq_slice(&mut i.cx, &s, lo, &hi.sub(lo))?)
                }
                It::Slice { p, lo, hi } => {
                    let r = sub(p, lo, &hi.sub(lo));
                    Some(seq_of(i, &r)?)
                }
                _ => None,
            };
            if let Some(s) = s {
                let v = seq_of(i, vec)?;
                let r = seq_cat(&mut i.cx, &v, &s);
                write_seq(i, vec, r)?;
                return ok(unit());
            }
        }
        _ => {}
    }
    let p = i.alloc(it.clone());
    let vr = vec.clone();
    let done = crate::loops::native_loop(i, &mut |i| {
        let mut n = 0;
        let fin = drain(i, t, &V::Ref(p.clone()), &mut |i, c, v| {
            if c != T {
                return uns("extend by a data-dependent number of items");
            }
            // extending from references copies the elements
            let v = if let V::Ref(_) = v { i.read_ref(&v)? } else { v };
            let s0 = seq_of(i, &vr)?;
            let s = seq_cat(&mut i.cx, &s0, &[P::El(Rc::new(vec![v]))]);
            write_seq(i, &vr, s)?;
            n += 1;
            Ok(false)
        })?;
        Ok(if !fin { None } else { Some(n > 0) })
    })?;
    if !done {
        return Ok(Cr::Diverge);
    }
    ok(unit())
}

fn iters(i: &mut In, f: &Fun, n: &str, a: &[V]) -> R<Option<Cr>> {
    let l = last(n);
    let l = l.split("::<").next().unwrap_or(l);
    // native iterators behind &mut self
    if (l == "next" || l == "next_back") && a.len() == 1 {
        if let V::Ref(_) = &a[0] {
            let v = i.read_ref(&a[0])?;
            if let V::It(_) = v {
                let r = step(i, 0, &a[0], l == "next_back")?.unwrap();
                return Ok(Some(Cr::Val(r)));
            }
            if n.contains("std::ops::Range<A>>::next") || n.contains("Iterator for std::ops::Range<A>>::next_back") {
                return Ok(Some(range_next(i, &a[0], &v, l == "next_back")?));
            }
            if n.contains("for std::ops::RangeInclusive<A>>::next") {
                return Ok(Some(range_incl_next(i, &a[0], &v, l == "next_back")?));
            }
        }
    }
    if n.starts_with("<std::iter::Zip<A, B> as std::iter::Iterator>::next") && l == "next" {
        let (ta, tb) = (targ(f, 0), targ(f, 1));
        let (ra, rb) = (map_ref(&a[0], &PE::F(0))?, map_ref(&a[0], &PE::F(1))?);
        let x = match step(i, ta, &ra, false)? {
            Some(x) => x,
            None => return Ok(Some(Cr::Diverge)),
        };
        return Ok(Some(zip2(i, x, tb, &rb)?));
    }
    if n == "<std::iter::Zip<A, B> as std::iter::DoubleEndedIterator>::next_back" {
        // equal lengths only
        let (ta, tb) = (targ(f, 0), targ(f, 1));
        let (ra, rb) = (map_ref(&a[0], &PE::F(0))?, map_ref(&a[0], &PE::F(1))?);
        let (la, lb) = (it_len(i, &ra)?, it_len(i, &rb)?);
        if la != lb {
            return uns("reverse zip of different lengths");
        }
        let x = match step(i, ta, &ra, true)? {
            Some(x) => x,
            None => return Ok(Some(Cr::Diverge)),
        };
        if let V::En(d, p) = &x {
            match i.cx.as_const(*d) {
                Some(0) => {
                    let v = i.nothing();
                    return Ok(Some(Cr::Val(v)));
                }
                Some(_) => {
                    let y = step(i, tb, &rb, true)?;
                    if let Some(V::En(_, q)) = y {
                        let t = agg(vec![p[1][0].clone(), q[1][0].clone()]);
                        let v = i.some(t);
                        return Ok(Some(Cr::Val(v)));
                    }
                }
                None => {}
            }
        }
        return uns("reverse zip");
    }
    if n == "<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new" {
        return Ok(Some(Cr::Val(agg(vec![a[0].clone(), a[1].clone(), V::Undef, V::Undef, V::Undef]))));
    }
    if l == "len" && n.contains("ExactSizeIterator") && a.len() == 1 {
        if let Ok(z) = it_len(i, &a[0]) {
            let v = i.vz(&z);
            return Ok(Some(Cr::Val(v)));
        }
    }
    if l == "size_hint" && a.len() == 1 {
        if let Ok(z) = it_len(i, &a[0]) {
            let v = i.vz(&z);
            let s = i.some(v.clone());
            return Ok(Some(Cr::Val(agg(vec![v, s]))));
        }
    }
    if n.contains("std::slice::ChunksExact") {
        if l == "remainder" || l == "into_remainder" {
            let v = if let V::Ref(_) = &a[0] { i.read_ref(&a[0])? } else { a[0].clone() };
            if let V::It(x) = &v {
                if let It::Chunks { p, rem, hi, exact: true, .. } = &**x {
                    // only valid before next_back was used; next_back moves hi
                    let r = sub(p, hi, rem);
                    return Ok(Some(Cr::Val(r)));
                }
            }
        }
    }
    if (l == "as_slice" || l == "into_slice" || l == "as_mut_slice" || l == "as_ref") && a.len() == 1 {
        let v = if let V::Ref(_) = &a[0] { i.read_ref(&a[0])? } else { a[0].clone() };
        if let V::It(x) = &v {
            if let It::Slice { p, lo, hi } = &**x {
                let r = sub(p, lo, &hi.sub(lo));
                return Ok(Some(Cr::Val(r)));
            }
        }
    }
    if l == "clone" && a.len() == 1 {
        if let V::Ref(_) = &a[0] {
            let v = i.read_ref(&a[0])?;
            if matches!(v, V::It(_) | V::W(_) | V::Gh(..) | V::Seq(_)) {
                return Ok(Some(Cr::Val(v)));
            }
        }
    }
    // skipping from the back
    if l == "nth_back" && a.len() == 2 && (n.contains("std::slice::") || n.contains("std::vec::IntoIter") || n.contains("std::array::IntoIter")) {
        if let V::It(_) = i.read_ref(&a[0])? {
            let w = a[1].w()?;
            let k = match i.cx.as_const(w) {
                Some(k) => k,
                None => return uns("nth_back"),
            };
            for _ in 0..k {
                step(i, 0, &a[0], true)?;
            }
            let r = step(i, 0, &a[0], true)?.unwrap();
            return Ok(Some(Cr::Val(r)));
        }
    }
    // consuming adaptors written as explicit loops over `next`
    let consuming = n.contains("std::iter::Iterator>::") || n.starts_with("std::iter::Iterator::") || n.contains("impl std::iter::Iterator for");
    let dei = n.contains("DoubleEndedIterator");
    if consuming && !dei {
        let self_ty = match arg_ty(f, 0) {
            Some(t) => t,
            None => targ(f, 0),
        };
        let by_ref = matches!(l, "all" | "any" | "find" | "position" | "try_fold" | "try_for_each" | "nth" | "advance_by" | "find_map");
        match l {
            "fold" => {
                let ft = arg_ty(f, 2);
                let ft = match ft {
                    Some(t) => t,
                    None => targ(f, f.targs.len().wrapping_sub(1)),
                };
                let it = i.alloc(a[0].clone());
                let acc = i.alloc(a[1].clone());
                let fp = i.alloc(a[2].clone());
                let done = crate::loops::native_loop(i, &mut |i| {
                    let mut n = 0;
                    let mut dead = false;
                    let fin = drain(i, self_ty, &V::Ref(it.clone()), &mut |i, c, v| {
                        n += 1;
                        let x = i.read(&acc)?;
                        if c != T {
                            return uns("data-dependent fold");
                        }
                        match call_fn(i, ft, &V::Ref(fp.clone()), vec![x, v])? {
                            Some(r) => i.write(&acc, r)?,
                            None => dead = true,
                        }
                        Ok(false)
                    })?;
                    Ok(if !fin || dead { None } else { Some(n > 0) })
                })?;
                if !done {
                    return Ok(Some(Cr::Diverge));
                }
                let v = i.read(&acc)?;
                return Ok(Some(Cr::Val(v)));
            }
            "for_each" => {
                let ft = match arg_ty(f, 1) {
                    Some(t) => t,
                    None => targ(f, f.targs.len().wrapping_sub(1)),
                };
                let it = i.alloc(a[0].clone());
                let fp = i.alloc(a[1].clone());
                let done = crate::loops::native_loop(i, &mut |i| {
                    let mut n = 0;
                    let mut dead = false;
                    let fin = drain(i, self_ty, &V::Ref(it.clone()), &mut |i, c, v| {
                        n += 1;
                        if c != T {
                            return uns("data-dependent for_each");
                        }
                        if call_fn(i, ft, &V::Ref(fp.clone()), vec![v])?.is_none() {
                            dead = true;
                        }
                        Ok(false)
                    })?;
                    Ok(if !fin || dead { None } else { Some(n > 0) })
                })?;
                if !done {
                    return Ok(Some(Cr::Diverge));
                }
                return Ok(Some(Cr::Val(unit())));
            }
            "all" | "any" if by_ref => {
                let st = match i.ty(self_ty) {
                    TyK::Ref(t, _) => *t,
                    _ => self_ty,
                };
                let ft = match arg_ty(f, 1) {
                    Some(t) => t,
                    None => targ(f, f.targs.len().wrapping_sub(1)),
                };
                let fp = i.alloc(a[1].clone());
                let all = l == "all";
                let mut r = if all { T } else { F };
                let mut dead = false;
                let fin = drain(i, st, &a[0], &mut |i, c, v| {
                    if c != T {
                        return uns("data-dependent all/any");
                    }
                    match call_fn(i, ft, &V::Ref(fp.clone()), vec![v])? {
                        None => {
                            dead = true;
                            Ok(false)
                        }
                        Some(b) => {
                            let b = i.bit(&b)?;
                            r = if all { i.cx.and(r, b) } else { i.cx.or(r, b) };
                            leak_bit(i, "early-exit search", r);
                            Ok(r > 1 || (r == T) == all)
                        }
                    }
                })?;
                if !fin || dead {
                    return Ok(Some(Cr::Diverge));
                }
                let v = i.vb(r);
                return Ok(Some(Cr::Val(v)));
            }
            "position" if by_ref => {
                let st = match i.ty(self_ty) {
                    TyK::Ref(t, _) => *t,
                    _ => self_ty,
                };
                let ft = match arg_ty(f, 1) {
                    Some(t) => t,
                    None => targ(f, f.targs.len().wrapping_sub(1)),
                };
                let fp = i.alloc(a[1].clone());
                let mut hits: Vec<B> = vec![];
                let mut dead = false;
                let fin = drain(i, st, &a[0], &mut |i, c, v| {
                    if c != T {
                        return uns("data-dependent position");
                    }
                    match call_fn(i, ft, &V::Ref(fp.clone()), vec![v])? {
                        None => {
                            dead = true;
                            Ok(false)
                        }
                        Some(b) => {
                            let b = i.bit(&b)?;
                            let mut r = F;
                            for h in &hits {
                                r = i.cx.or(r, *h);
                            }
                            r = i.cx.or(r, b);
                            leak_bit(i, "early-exit search", r);
                            hits.push(b);
                            Ok(b != T)
                        }
                    }
                })?;
                if !fin || dead {
                    return Ok(Some(Cr::Diverge));
                }
                let mut any = F;
                let mut pos = i.cx.konst(64, 0);
                for (k, b) in hits.iter().enumerate().rev() {
                    let kw = i.cx.konst(64, k as u128);
                    pos = i.cx.wite(*b, kw, pos);
                    any = i.cx.or(any, *b);
                }
                let v = match any {
                    T => i.some(V::W(pos)),
                    F => i.nothing(),
                    c => i.opt_if(c, V::W(pos)),
                };
                return Ok(Some(Cr::Val(v)));
            }
            "sum" | "product" if a.len() == 1 => return Ok(None),
            "count" | "last" if a.len() == 1 => {
                let it = i.alloc(a[0].clone());
                let mut n = 0u128;
                let mut lastv = None;
                let fin = drain(i, self_ty, &V::Ref(it), &mut |_, c, v| {
                    if c != T {
                        return uns("data-dependent count");
                    }
                    n += 1;
                    lastv = Some(v);
                    Ok(true)
                })?;
                if !fin {
                    return Ok(Some(Cr::Diverge));
                }
                let v = if l == "count" {
                    i.k64(n)
                } else {
                    match lastv {
                        Some(v) => i.some(v),
                        None => i.nothing(),
                    }
                };
                return Ok(Some(Cr::Val(v)));
            }
            "nth" if n.contains("std::slice::") || n.contains("std::vec::IntoIter") || n.contains("std::array::IntoIter") => {
                let w = a[1].w()?;
                if let Some(k) = i.cx.as_const(w) {
                    for _ in 0..k {
                        step(i, 0, &a[0], false)?;
                    }
                    let r = step(i, 0, &a[0], false)?.unwrap();
                    return Ok(Some(Cr::Val(r)));
                }
                // symbolic skip
                let z = i.zw(w);
                let v = i.read_ref(&a[0])?;
                if let V::It(x) = &v {
                    if let It::Slice { p, lo, hi } = &**x {
                        let r = match cond_ge0(i, &hi.sub(lo).sub(&z).addk(-1))? {
                            Ok(true) => {
                                let e = elem(p, &lo.add(&z));
                                i.write_ref(&a[0], V::It(Rc::new(It::Slice { p: p.clone(), lo: lo.add(&z).addk(1), hi: hi.clone() })))?;
                                i.some(e)
                            }
                            Ok(false) => {
                                i.write_ref(&a[0], V::It(Rc::new(It::Slice { p: p.clone(), lo: hi.clone(), hi: hi.clone() })))?;
                                i.nothing()
                            }
                            Err(_) => return uns("data-dependent nth"),
                        };
                        return Ok(Some(Cr::Val(r)));
                    }
                }
                return uns("nth");
            }
            "advance_by" => {
                let w = a[1].w()?;
                if let Some(k) = i.cx.as_const(w) {
                    let v = i.read_ref(&a[0])?;
                    if let V::It(_) = v {
                        for _ in 0..k {
                            step(i, 0, &a[0], false)?;
                        }
                        let v = i.mk_enum(2, 0, vec![unit()]);
                        return Ok(Some(Cr::Val(v)));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(None)
}
fn zip2(i: &mut In, x: V, tb: usize, rb: &V) -> Res {
    if let V::En(d, p) = &x {
        match i.cx.as_const(*d) {
            Some(0) => {
                let v = i.nothing();
                return ok(v);
            }
            Some(_) => {
                let y = match step(i, tb, rb, false)? {
                    Some(y) => y,
                    None => return Ok(Cr::Diverge),
                };
                if let V::En(e, q) = &y {
                    return match i.cx.as_const(*e) {
                        Some(0) => {
                            let v = i.nothing();
                            ok(v)
                        }
                        Some(_) => {
                            let t = agg(vec![p[1][0].clone(), q[1][0].clone()]);
                            let v = i.some(t);
                            ok(v)
                        }
                        None => {
                            let c = i.cx.bits(*e)[0];
                            let t = agg(vec![p[1][0].clone(), q[1][0].clone()]);
                            let v = i.opt_if(c, t);
                            ok(v)
                        }
                    };
                }
            }
            None => {
                let y = match step(i, tb, rb, false)? {
                    Some(y) => y,
                    None => return Ok(Cr::Diverge),
                };
                if let V::En(e, q) = &y {
                    let c1 = i.cx.bits(*d)[0];
                    let c2 = i.cx.bits(*e)[0];
                    let c = i.cx.and(c1, c2);
                    if c == F || q[1].is_empty() {
                        let v = i.nothing();
                        return ok(v);
                    }
                    let t = agg(vec![p[1][0].clone(), q[1][0].clone()]);
                    let v = i.opt_if(c, t);
                    return ok(v);
                }
            }
        }
    }
    uns("zip item")
}
fn it_len(i: &mut In, r: &V) -> R<Z> {
    let v = if let V::Ref(_) = r { i.read_ref(r)? } else { r.clone() };
    match &v {
        V::It(x) => Ok(match &**x {
            It::Slice { lo, hi, .. } | It::Into { lo, hi, .. } => hi.sub(lo),
            It::Windows { lo, hi, size, .. } => {
                let d = hi.sub(lo).sub(size);
                match cond_ge0(i, &d)? {
                    Ok(true) => d.addk(1),
                    Ok(false) => Z::k(0),
                    Err(_) => return uns("length"),
                }
            }
            It::Chunks { lo, hi, size, exact, .. } => {
                let n = hi.sub(lo);
                let n = if *exact { n } else { n.add(size).addk(-1) };
                let (nw, sw) = (i.cx.from_z(&n, 64), i.cx.from_z(size, 64));
                let q = i.cx.div(nw, sw);
                i.zw(q)
            }
        }),
        V::Agg(f) if f.len() == 2 => {
            // Range
            let (x, y) = (f[0].w()?, f[1].w()?);
            let (x, y) = (i.zw(x), i.zw(y));
            let d = y.sub(&x);
            match cond_ge0(i, &d)? {
                Ok(true) => Ok(d),
                Ok(false) => Ok(Z::k(0)),
                Err(_) => uns("length"),
            }
        }
        _ => uns("iterator length"),
    }
}
fn range_next(i: &mut In, r: &V, v: &V, back: bool) -> Res {
    let f = match v {
        V::Agg(f) => f.clone(),
        _ => return uns("range"),
    };
    let (s, e) = (f[0].w()?, f[1].w()?);
    let wd = i.cx.width(s);
    let c = i.cx.ult(s, e);
    let one = i.cx.konst(wd, 1);
    match i.decide(c)? {
        Some(false) => {
            let v = i.nothing();
            ok(v)
        }
        d => {
            let x = if back { i.cx.sub(e, one) } else { s };
            if back {
                i.write_ref(r, agg(vec![V::W(s), V::W(x)]))?;
            } else {
                let n = i.cx.add(s, one);
                i.write_ref(r, agg(vec![V::W(n), V::W(e)]))?;
            }
            let v = if d.is_some() { i.some(V::W(x)) } else { i.opt_if(c, V::W(x)) };
            ok(v)
        }
    }
}
fn range_incl_next(i: &mut In, r: &V, v: &V, back: bool) -> Res {
    let f = match v {
        V::Agg(f) => f.clone(),
        _ => return uns("range"),
    };
    let (s, e) = (f[0].w()?, f[1].w()?);
    let ex = i.bit(&f[2])?;
    // exhausted flag modelled as end < start is not possible for unsigned; keep the flag
    let gt = i.cx.ult(e, s);
    let fin = i.cx.or(ex, gt);
    let c = i.cx.not(fin);
    match i.decide(c)? {
        Some(false) => {
            let v = i.nothing();
            ok(v)
        }
        Some(true) => {
            let wd = i.cx.width(s);
            let one = i.cx.konst(wd, 1);
            let lt = i.cx.ult(s, e);
            match i.decide(lt)? {
                Some(true) => {
                    let x;
                    if back {
                        x = e;
                        let n = i.cx.sub(e, one);
                        i.write_ref(r, agg(vec![V::W(s), V::W(n), f[2].clone()]))?;
                    } else {
                        x = s;
                        let n = i.cx.add(s, one);
                        i.write_ref(r, agg(vec![V::W(n), V::W(e), f[2].clone()]))?;
                    }
                    let v = i.some(V::W(x));
                    ok(v)
                }
                Some(false) => {
                    let t = i.vb(T);
                    i.write_ref(r, agg(vec![V::W(s), V::W(e), t]))?;
                    let v = i.some(V::W(s));
                    ok(v)
                }
                None => uns("data-dependent inclusive range"),
            }
        }
        None => uns("data-dependent inclusive range"),
    }
}

fn misc(i: &mut In, f: &Fun, n: &str, a: &[V]) -> R<Option<Cr>> {
    let l = last(n);
    let l = l.split("::<").next().unwrap_or(l);
    match n {
        "std::mem::swap" | "core::mem::swap" => {
            let (x, y) = (i.read_ref(&a[0])?, i.read_ref(&a[1])?);
            i.write_ref(&a[0], y)?;
            i.write_ref(&a[1], x)?;
            return Ok(Some(Cr::Val(unit())));
        }
        "std::mem::replace" | "core::mem::replace" => {
            let x = i.read_ref(&a[0])?;
            i.write_ref(&a[0], a[1].clone())?;
            return Ok(Some(Cr::Val(x)));
        }
        "std::mem::drop" | "core::mem::drop" | "std::mem::forget" | "core::mem::forget" => return Ok(Some(Cr::Val(unit()))),
        "std::hint::black_box" | "core::hint::black_box" => return Ok(Some(Cr::Val(a[0].clone()))),
        "std::ptr::drop_in_place" | "std::ptr::drop_glue" => return Ok(Some(Cr::Val(unit()))),
        _ => {}
    }
    if n.starts_with("std::boxed::Box::<T>::new") || n.starts_with("alloc::boxed::Box::<T>::new") {
        let p = i.alloc(a[0].clone());
        return Ok(Some(Cr::Val(V::Ref(p))));
    }
    if l == "clone" && n.contains("std::clone::impls::") {
        let v = i.read_ref(&a[0])?;
        return Ok(Some(Cr::Val(v)));
    }
    if n.contains("std::boxed::Box<") && n.contains("Deref") {
        let v = i.read_ref(&a[0])?;
        return Ok(Some(Cr::Val(v)));
    }
    if l == "from" && n.contains("std::convert::num::") && a.len() == 1 {
        // lossless conversions
        if let Some(b) = &f.body {
            if let (Some(w), V::W(x)) = (i.bits_of(b.locals[0]), &a[0]) {
                let sg = i.signed(b.locals[1]);
                let r = i.cx.cast(*x, w, sg);
                return Ok(Some(Cr::Val(V::W(r))));
            }
        }
    }
    Ok(None)
}
