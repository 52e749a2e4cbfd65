//! rustc driver that writes the *monomorphised, resolved* MIR of a crate (and of the std generics it
//! instantiates) as JSON, together with crate-level facts (visibility, unsafe, statics, trait impls).
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  Nothing is executed: this only
//! serialises what the compiler's own front end (type check, trait resolution, MIR build) produced.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_infer;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod facts;
mod json;

use json::J;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    files: BTreeMap<String, usize>,
}

fn skip_body(name: &str) -> bool {
    // Bodies never needed: formatting, panic machinery, allocator, environment.
    const PRE: &[&str] = &[
        "panicking", "rt::", "fmt", "raw_vec", "alloc", "io", "backtrace", "str", "string", "sys", "sync", "unicode", "env", "thread",
        "fs", "net", "process", "time", "collections", "num::fmt", "num::flt2dec", "num::dec2flt", "num::imp", "any", "slice", "vec", "array",
        "mem::maybe_uninit", "ptr", "boxed", "ub_checks", "hint", "intrinsics", "error", "borrow", "char", "ascii",
    ];
    let Some(rest) = name.strip_prefix("core::").or(name.strip_prefix("std::")).or(name.strip_prefix("alloc::")) else { return name.starts_with("hashbrown") };
    let rest = rest.strip_prefix('<').unwrap_or(rest);
    PRE.iter().any(|p| rest.starts_with(p) && (p.ends_with("::") || rest[p.len()..].starts_with("::") || rest.len() == p.len()))
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            return n;
        }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        self.queue.push_back(n);
        n
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(J::n(self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(J::A(vec![J::s("const"), J::U(n as u128)])),
                    Err(_) => v.push(J::A(vec![J::s("const"), J::Null])),
                },
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(J::Null);
        let j = self.ty_json(t);
        self.ty_out[n] = j;
        n
    }

    fn ty_json(&mut self, t: Ty) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let size = t.layout().ok().map(|l| l.shape()).filter(|s| s.is_sized()).map(|s| s.size.bytes());
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", J::s("bool"))),
                RigidTy::Char => o.push(("k", J::s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", J::s("int")));
                    o.push(("w", J::n(match i {
                        IntTy::Isize => 64, IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 => 64, IntTy::I128 => 128,
                    })));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", J::s("uint")));
                    o.push(("w", J::n(match i {
                        UintTy::Usize => 64, UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 => 64, UintTy::U128 => 128,
                    })));
                    o.push(("sz", J::B(matches!(i, UintTy::Usize))));
                }
                RigidTy::Float(_) => o.push(("k", J::s("float"))),
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        AdtKind::Struct => "struct",
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                    };
                    o.push(("k", J::s(k)));
                    o.push(("name", J::S(def.name())));
                    o.push(("box", J::B(def.is_box())));
                    o.push(("args", self.args(&args)));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            fs.push(J::A(vec![J::S(f.name.clone()), J::n(self.ty(fty))]));
                        }
                        let d = if k == "enum" { J::U(def.discriminant_for_variant(v.idx()).val) } else { J::U(0) };
                        vs.push(J::O(vec![("name", J::S(v.name())), ("discr", d), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                RigidTy::Str => o.push(("k", J::s("str"))),
                RigidTy::Array(e, c) => {
                    o.push(("k", J::s("array")));
                    o.push(("elem", J::n(self.ty(e))));
                    o.push(("len", c.eval_target_usize().map(|n| J::U(n as u128)).unwrap_or(J::Null)));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", J::s("slice")));
                    o.push(("elem", J::n(self.ty(e))));
                }
                RigidTy::RawPtr(p, m) => {
                    o.push(("k", J::s("ptr")));
                    o.push(("to", J::n(self.ty(p))));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, p, m) => {
                    o.push(("k", J::s("ref")));
                    o.push(("to", J::n(self.ty(p))));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(d, args) => {
                    o.push(("k", J::s("fndef")));
                    o.push(("name", J::S(d.name())));
                    o.push(("args", self.args(&args)));
                    if let Ok(i) = Instance::resolve(d, &args) {
                        o.push(("inst", J::n(self.inst(i))));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", J::s("fnptr"))),
                RigidTy::Closure(d, args) => {
                    o.push(("k", J::s("closure")));
                    o.push(("name", J::S(d.name())));
                    // upvar types: last generic arg is the tuple of upvars
                    let mut up = J::Null;
                    if let Some(GenericArgKind::Type(tt)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = tt.kind() {
                            up = J::A(ts.iter().map(|x| J::n(self.ty(*x))).collect());
                        }
                    }
                    o.push(("upvars", up));
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                        o.push(("inst_once", J::n(self.inst(i))));
                    }
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnMut) {
                        o.push(("inst_mut", J::n(self.inst(i))));
                    }
                }
                RigidTy::Never => o.push(("k", J::s("never"))),
                RigidTy::Tuple(ts) => {
                    o.push(("k", J::s("tuple")));
                    let l = ts.iter().map(|x| J::n(self.ty(*x))).collect();
                    o.push(("elems", J::A(l)));
                }
                RigidTy::Dynamic(..) => o.push(("k", J::s("dyn"))),
                other => {
                    o.push(("k", J::s("other")));
                    o.push(("d", J::S(format!("{:?}", std::mem::discriminant(&other)))));
                }
            },
            _ => o.push(("k", J::s("nonrigid"))),
        }
        if let Some(s) = size {
            o.push(("size", J::n(s)));
        }
        o.push(("s", J::S(format!("{}", t))));
        J::O(o)
    }

    // ---- constants -------------------------------------------------------------------------

    fn read(&self, al: &Allocation, off: usize, n: usize) -> Option<u128> {
        al.read_partial_uint(off..off + n).ok()
    }

    fn pointee(&mut self, ty: Ty, al: &Allocation, off: usize, depth: usize) -> J {
        // decode pointer at off in al; ty = pointee type
        let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let addend = self.read(al, off, 8).unwrap_or(0) as usize;
        let Some(id) = prov else { return J::A(vec![J::s("addr"), J::U(addend as u128)]) };
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(target) => {
                let inner = match ty.kind() {
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = self.read(al, off + 8, 8).unwrap_or(0) as usize;
                        let es = e.layout().unwrap().shape().size.bytes();
                        let v = (0..n).map(|i| self.decode(e, &target, addend + i * es, depth + 1)).collect();
                        J::A(vec![J::s("arr"), J::A(v)])
                    }
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = self.read(al, off + 8, 8).unwrap_or(0) as usize;
                        let v = (0..n).map(|i| J::A(vec![J::s("i"), J::U(self.read(&target, addend + i, 1).unwrap_or(0))])).collect();
                        J::A(vec![J::s("arr"), J::A(v)])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => J::A(vec![J::s("opaque"), J::s("dyn")]),
                    _ => self.decode(ty, &target, addend, depth + 1),
                };
                J::A(vec![J::s("ref"), inner])
            }
            GlobalAlloc::Static(s) => {
                let name = s.name();
                let sty = s.ty();
                let val = match s.eval_initializer() {
                    Ok(a) => self.decode(sty, &a, 0, depth + 1),
                    Err(_) => J::Null,
                };
                J::A(vec![J::s("static"), J::S(name), val, J::n(addend)])
            }
            GlobalAlloc::Function(i) => J::A(vec![J::s("fnptr"), J::n(self.inst(i))]),
            _ => J::A(vec![J::s("opaque"), J::s("alloc")]),
        }
    }

    fn decode(&mut self, ty: Ty, al: &Allocation, off: usize, depth: usize) -> J {
        if depth > 12 {
            return J::A(vec![J::s("opaque"), J::s("deep")]);
        }
        let Ok(layout) = ty.layout() else { return J::A(vec![J::s("opaque"), J::s("nolayout")]) };
        let shape = layout.shape();
        let size = shape.size.bytes();
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => match self.read(al, off, size) {
                    Some(v) => J::A(vec![J::s("i"), J::U(v)]),
                    None => J::A(vec![J::s("undef")]),
                },
                RigidTy::Array(e, _) => {
                    let n = match &shape.fields {
                        FieldsShape::Array { count, .. } => *count as usize,
                        _ => 0,
                    };
                    let es = e.layout().unwrap().shape().size.bytes();
                    let v = (0..n).map(|i| self.decode(e, al, off + i * es, depth + 1)).collect();
                    J::A(vec![J::s("arr"), J::A(v)])
                }
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.pointee(p, al, off, depth),
                RigidTy::Tuple(ts) => {
                    let offs = offsets(&shape.fields);
                    let v = ts.iter().enumerate().map(|(i, t)| self.decode(*t, al, off + offs.get(i).copied().unwrap_or(0), depth + 1)).collect();
                    J::A(vec![J::s("tup"), J::A(v)])
                }
                RigidTy::FnDef(..) => J::A(vec![J::s("zst")]),
                RigidTy::Closure(_, args) => {
                    let offs = offsets(&shape.fields);
                    let mut v = vec![];
                    if let Some(GenericArgKind::Type(tt)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = tt.kind() {
                            for (i, t) in ts.iter().enumerate() {
                                v.push(self.decode(*t, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                            }
                        }
                    }
                    J::A(vec![J::s("tup"), J::A(v)])
                }
                RigidTy::FnPtr(_) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match prov.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => J::A(vec![J::s("fnptr"), J::n(self.inst(i))]),
                        _ => J::A(vec![J::s("opaque"), J::s("fnptr")]),
                    }
                }
                RigidTy::Adt(def, args) => {
                    if def.kind() == AdtKind::Union {
                        return J::A(vec![J::s("opaque"), J::s("union")]);
                    }
                    let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => (index.to_index(), offsets(&shape.fields)),
                        VariantsShape::Empty => return J::A(vec![J::s("opaque"), J::s("empty")]),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = offsets(&shape.fields)[*tag_field];
                            let (tsz, is_ptr) = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                    rustc_public::abi::Primitive::Int { length, .. } => (length.bits() / 8, false),
                                    rustc_public::abi::Primitive::Pointer(_) => (8, true),
                                    _ => return J::A(vec![J::s("opaque"), J::s("tag")]),
                                },
                            };
                            let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tagv = if is_ptr && has_prov { None } else { self.read(al, off + toff, tsz) };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = tagv else { return J::A(vec![J::s("undef")]) };
                                    let mut found = None;
                                    for v in def.variants_iter() {
                                        let d = def.discriminant_for_variant(v.idx()).val;
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        if d & mask == tv {
                                            found = Some(v.idx().to_index());
                                        }
                                    }
                                    match found { Some(f) => f, None => return J::A(vec![J::s("opaque"), J::s("tag")]) }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match tagv {
                                    None => untagged_variant.to_index(),
                                    Some(tv) => {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                    }
                                },
                            };
                            (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                        }
                    };
                    let v = def.variants()[vidx];
                    let fs = v.fields();
                    let mut out = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        out.push(self.decode(ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1));
                    }
                    J::A(vec![J::s("adt"), J::n(vidx), J::A(out)])
                }
                _ => J::A(vec![J::s("opaque"), J::s("kind")]),
            },
            _ => J::A(vec![J::s("opaque"), J::s("nonrigid")]),
        }
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        let tj = J::n(self.ty(ty));
        let v = match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty, 0),
            ConstantKind::Allocated(al) => self.decode(ty, al, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, al) => {
                    let (t, al) = (*t, al.clone());
                    self.decode(t, &al, 0, 0)
                }
                TyConstKind::ZSTValue(t) => self.zst(*t, 0),
                _ => J::A(vec![J::s("opaque"), J::s("tyconst")]),
            },
            _ => J::A(vec![J::s("opaque"), J::s("const")]),
        };
        J::A(vec![J::s("K"), tj, v])
    }

    fn zst(&mut self, ty: Ty, depth: usize) -> J {
        if depth > 8 {
            return J::A(vec![J::s("zst")]);
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => J::A(vec![J::s("tup"), J::A(ts.iter().map(|t| self.zst(*t, depth + 1)).collect())]),
            TyKind::RigidTy(RigidTy::Array(_, _)) => J::A(vec![J::s("arr"), J::A(vec![])]),
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let v = def.variants()[0];
                let mut out = vec![];
                for f in v.fields() {
                    let ft = f.ty_with_args(&args);
                    out.push(self.zst(ft, depth + 1));
                }
                J::A(vec![J::s("adt"), J::n(0), J::A(out)])
            }
            TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
                match ty.layout().map(|l| l.shape().variants) {
                    Ok(VariantsShape::Single { index }) => J::A(vec![J::s("adt"), J::n(index.to_index()), J::A(vec![])]),
                    _ => J::A(vec![J::s("zst")]),
                }
            }
            TyKind::RigidTy(RigidTy::Closure(..)) => J::A(vec![J::s("tup"), J::A(vec![])]),
            _ => J::A(vec![J::s("zst")]),
        }
    }

    // ---- bodies ----------------------------------------------------------------------------

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![J::n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![J::s("f"), J::n(*i), J::n(self.ty(*t))]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(*l)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![J::s("c"), J::n(*offset as usize), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("s"), J::n(*from as usize), J::n(*to as usize), J::B(*from_end)]),
                ProjectionElem::Downcast(i) => J::A(vec![J::s("d"), J::n(i.to_index())]),
                ProjectionElem::OpaqueCast(_) => J::s("o"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("C"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("M"), self.place(p)]),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => J::A(vec![J::s("R"), J::S(format!("{:?}", r))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        let mut v;
        match r {
            Rvalue::AddressOf(_, p) => v = vec![J::s("addr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), J::n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = d.ty_with_args(args);
                        J::A(vec![J::s("adt"), J::n(self.ty(t)), J::n(vi.to_index()), af.map(|x| J::n(x)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        J::A(vec![J::s("closure"), J::n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![J::s("rawptr"), J::n(self.ty(*t))]),
                    _ => J::A(vec![J::s("other")]),
                };
                v = vec![J::s("agg"), kj];
                let l = ops.iter().map(|o| self.operand(o)).collect();
                v.push(J::A(l));
            }
            Rvalue::BinaryOp(op, a, b) => v = vec![J::s("bin"), J::S(format!("{:?}", op)), self.operand(a), self.operand(b)],
            Rvalue::CheckedBinaryOp(op, a, b) => v = vec![J::s("chk"), J::S(format!("{:?}", op)), self.operand(a), self.operand(b)],
            Rvalue::Cast(k, o, t) => v = vec![J::s("cast"), J::S(format!("{:?}", k)), self.operand(o), J::n(self.ty(*t))],
            Rvalue::CopyForDeref(p) => v = vec![J::s("use"), J::A(vec![J::s("C"), self.place(p)])],
            Rvalue::Discriminant(p) => v = vec![J::s("discr"), self.place(p)],
            Rvalue::Len(p) => v = vec![J::s("len"), self.place(p)],
            Rvalue::Ref(_, k, p) => v = vec![J::s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)],
            Rvalue::Reborrow(_, m, p) => v = vec![J::s("reborrow"), J::B(*m == Mutability::Mut), self.place(p)],
            Rvalue::Repeat(o, c) => v = vec![J::s("rep"), self.operand(o), c.eval_target_usize().map(|n| J::U(n as u128)).unwrap_or(J::Null)],
            Rvalue::ThreadLocalRef(i) => v = vec![J::s("tls"), J::S(i.name())],
            Rvalue::UnaryOp(op, o) => v = vec![J::s("un"), J::S(format!("{:?}", op)), self.operand(o)],
            Rvalue::Use(o, _) => v = vec![J::s("use"), self.operand(o)],
        }
        v.shrink_to_fit();
        J::A(v)
    }

    fn line(&mut self, s: Span) -> J {
        J::n(s.get_lines().start_line)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| J::n(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(J::A(vec![J::s("="), self.place(p), self.rvalue(r), ln])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(J::A(vec![J::s("sd"), self.place(place), J::n(variant_index.to_index()), ln]))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(J::A(vec![J::s("cno"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), ln]))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![J::s("goto"), J::n(*target), ln]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    J::A(vec![
                        J::s("switch"),
                        self.operand(discr),
                        J::A(targets.branches().map(|(v, t)| J::A(vec![J::U(v), J::n(t)])).collect()),
                        J::n(targets.otherwise()),
                        ln,
                        J::n(dt),
                    ])
                }
                TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![J::s("resume"), ln]),
                TerminatorKind::Return => J::A(vec![J::s("ret"), ln]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable"), ln]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let mut di = J::Null;
                    if let Some(pt) = pt {
                        let i = Instance::resolve_drop_in_place(pt);
                        if !i.is_empty_shim() {
                            di = J::n(self.inst(i));
                        }
                    }
                    J::A(vec![J::s("drop"), self.place(place), J::n(*target), di, ln])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func.ty(b.locals()).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, ga))) => match Instance::resolve(d, &ga) {
                            Ok(i) => J::n(self.inst(i)),
                            Err(_) => J::A(vec![J::s("unresolved"), J::S(d.name())]),
                        },
                        _ => J::A(vec![J::s("ptr"), self.operand(func)]),
                    };
                    let al = args.iter().map(|o| self.operand(o)).collect();
                    J::A(vec![
                        J::s("call"),
                        fj,
                        J::A(al),
                        self.place(destination),
                        target.map(|x| J::n(x)).unwrap_or(J::Null),
                        ln,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "divzero".to_string(),
                        AssertMessage::RemainderByZero(_) => "remzero".to_string(),
                        other => format!("other:{}", other.description().unwrap_or("?")),
                    };
                    J::A(vec![J::s("assert"), self.operand(cond), J::B(*expected), J::S(m), J::n(*target), ln])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("asm"), ln]),
            };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", tj)]));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                dbg.push(J::A(vec![J::n(l), J::S(v.name.clone())]));
            }
        }
        J::O(vec![
            ("locals", J::A(locals)),
            ("argc", J::n(b.arg_locals().len())),
            ("spread", b.spread_arg().map(|x| J::n(x)).unwrap_or(J::Null)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn offsets(f: &FieldsShape) -> Vec<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(),
        FieldsShape::Array { stride, count } => (0..*count as usize).map(|i| i * stride.bytes()).collect(),
        FieldsShape::Union(n) => vec![0; n.get()],
        FieldsShape::Primitive => vec![],
    }
}

static DEI: std::sync::OnceLock<Option<rustc_span::def_id::DefId>> = std::sync::OnceLock::new();

fn iter_methods(tcx: rustc_middle::ty::TyCtxt<'_>, t: Ty) -> Vec<(&'static str, Instance)> {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let mut out = vec![];
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(..)) => {}
        _ => return out,
    }
    let it = rustc_public::rustc_internal::internal(tcx, t);
    let env = rustc_middle::ty::ParamEnv::empty();
    let mut cands: Vec<(&'static str, rustc_span::def_id::DefId)> = vec![];
    if let Some(d) = tcx.lang_items().next_fn() {
        cands.push(("next", d));
    }
    if let Some(d) = tcx.lang_items().into_iter_fn() {
        cands.push(("into_iter", d));
    }
    if let Some(tr) = *DEI.get_or_init(|| tcx.all_traits_including_private().find(|d| tcx.def_path_str(*d).ends_with("iter::DoubleEndedIterator"))) {
        for a in tcx.associated_items(tr).in_definition_order() {
            if a.name().as_str() == "next_back" {
                cands.push(("next_back", a.def_id));
            }
        }
    }
    for (w, d) in cands {
        let tr = tcx.parent(d);
        let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
        if !infcx.type_implements_trait(tr, [it], env).must_apply_modulo_regions() {
            continue;
        }
        let fty = rustc_middle::ty::Ty::new_fn_def(tcx, d, rustc_middle::ty::Binder::dummy([it]));
        let sty = rustc_public::rustc_internal::stable(fty);
        if let TyKind::RigidTy(RigidTy::FnDef(fd, ga)) = sty.kind() {
            if let Ok(i) = Instance::resolve(fd, &ga) {
                out.push((w, i));
            }
        }
    }
    out
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let krate = rustc_public::local_crate();
    let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_list: vec![], queue: VecDeque::new(), files: BTreeMap::new() };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) {
            continue;
        }
        if item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let n = cx.inst(i);
            roots.push(J::n(n));
        }
    }
    let mut fns: Vec<(usize, J)> = vec![];
    let mut statics = vec![];
    let mut iters: Vec<J> = vec![];
    let mut ty_done = 0usize;
    loop {
        if cx.queue.is_empty() {
            // resolve Iterator::next / DoubleEndedIterator::next_back / IntoIterator::into_iter for every type seen
            let mut all: Vec<(usize, Ty)> = cx.tys.iter().map(|(t, n)| (*n, *t)).collect();
            all.sort_by_key(|x| x.0);
            for (n, t) in all.into_iter().skip(ty_done) {
                for (what, i) in iter_methods(tcx, t) {
                    let k = cx.inst(i);
                    iters.push(J::A(vec![J::n(n), J::s(what), J::n(k)]));
                }
                ty_done += 1;
            }
            if cx.queue.is_empty() {
                break;
            }
        }
        let Some(n) = cx.queue.pop_front() else { continue };
        let i = cx.inst_list[n];
        if std::env::var("MIRDUMP_TRACE").is_ok() {
            eprintln!("[{}] {}", n, i.name());
        }
        let dname = i.def.name();
        let local = i.def.krate().is_local;
        let full = i.name();
        let intr = i.intrinsic_name();
        let span = i.def.span();
        let file = span.get_filename();
        cx.files.insert(file.clone(), 0);
        let targs = {
            let a = i.args();
            cx.args(&a)
        };
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let foreign = matches!(i.kind, InstanceKind::Item) && i.is_foreign_item();
        let mut o = vec![
            ("id", J::n(n)),
            ("name", J::S(dname.clone())),
            ("full", J::S(full)),
            ("kind", J::s(kind)),
            ("foreign", J::B(foreign)),
            ("local", J::B(local)),
            ("krate", J::S(i.def.krate().name)),
            ("file", J::S(file)),
            ("line", J::n(span.get_lines().start_line)),
            ("targs", targs),
        ];
        if let Some(s) = intr {
            o.push(("intrinsic", J::S(s)));
        }
        let full_skip = !local && skip_body(&dname);
        if kind != "virtual" && kind != "llvm" && !full_skip && !(kind == "intrinsic") {
            if let Some(b) = i.body() {
                o.push(("body", cx.body(&b)));
            }
        }
        fns.push((n, J::O(o)));
    }
    for s in krate.statics() {
        let t = s.ty();
        statics.push(J::O(vec![("name", J::S(s.name())), ("ty", J::n(cx.ty(t))), ("line", J::n(s.span().get_lines().start_line)), ("file", J::S(s.span().get_filename()))]));
    }
    let mut adts = vec![];
    for a in krate.adts() {
        adts.push(J::S(a.name()));
    }
    let facts = facts::facts(tcx);
    let j = J::O(vec![
        ("crate", J::S(krate.name)),
        ("roots", J::A(roots)),
        ("fns", J::A(fns.into_iter().map(|x| x.1).collect())),
        ("tys", J::A(std::mem::take(&mut cx.ty_out))),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
        ("iters", J::A(iters)),
        ("facts", facts),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = std::env::var("MIRDUMP_OUT").is_ok() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("MIRDUMP_CRATE").unwrap_or_default())
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let r = rustc_driver::catch_fatal_errors(|| {
            let mut cb = NoCb;
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        });
        if r.is_err() {
            std::process::exit(101);
        }
        return;
    }
    let r = run_with_tcx!(&args, dump);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(101),
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}
