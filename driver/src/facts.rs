//! Facts about every item of the crate, straight from the type-checked program: visibility, unsafety, statics,
//! type properties (interior mutability, Send, Sync, implemented traits) and the callees of every body.
use crate::json::J;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, CastKind, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingMode};
use rustc_span::sym;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::BTreeSet;

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> (J, J) {
    let p = tcx.sess.source_map().lookup_char_pos(sp.lo());
    (J::S(p.file.name.prefer_local_unconditionally().to_string()), J::n(p.line))
}
struct Unsafe<'t> {
    tcx: TyCtxt<'t>,
    found: Vec<(String, usize)>,
    asm: usize,
}
impl<'t> Visitor<'t> for Unsafe<'t> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'t> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'t hir::Block<'t>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            let p = self.tcx.sess.source_map().lookup_char_pos(b.span.lo());
            self.found.push((p.file.name.prefer_local_unconditionally().to_string(), p.line));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_inline_asm(&mut self, a: &'t hir::InlineAsm<'t>, id: hir::HirId) {
        self.asm += 1;
        intravisit::walk_inline_asm(self, a, id);
    }
}
fn implements<'t>(tcx: TyCtxt<'t>, of: DefId, ty: Ty<'t>, tr: Option<DefId>) -> J {
    let Some(tr) = tr else { return J::Null };
    let env = ty::ParamEnv::empty();
    let _ = of;
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    J::B(infcx.type_implements_trait(tr, [ty], env).must_apply_modulo_regions())
}
fn callees<'t>(tcx: TyCtxt<'t>, body: &mir::Body<'t>) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut calls, mut other) = (BTreeSet::new(), BTreeSet::new());
    struct V<'a, 't> {
        tcx: TyCtxt<'t>,
        calls: &'a mut BTreeSet<String>,
        other: &'a mut BTreeSet<String>,
    }
    impl<'a, 't> mir::visit::Visitor<'t> for V<'a, 't> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'t>, _l: mir::Location) {
            match c.const_.ty().kind() {
                ty::FnDef(d, args) => {
                    self.calls.insert(self.tcx.def_path_str_with_args(*d, args.skip_binder()));
                    self.calls.insert(format!("@{}", self.tcx.def_path_str(*d)));
                }
                _ => {}
            }
            if let Some(d) = c.check_static_ptr(self.tcx) {
                self.other.insert(format!("static {}", self.tcx.def_path_str(d)));
            }
        }
        fn visit_rvalue(&mut self, r: &Rvalue<'t>, l: mir::Location) {
            match r {
                Rvalue::ThreadLocalRef(d) => {
                    self.other.insert(format!("thread-local {}", self.tcx.def_path_str(*d)));
                }
                Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => {
                    self.other.insert("cast pointer to integer".into());
                }
                Rvalue::Cast(CastKind::Transmute, ..) => {
                    self.other.insert("cast transmute".into());
                }
                _ => {}
            }
            self.super_rvalue(r, l);
        }
    }
    {
        use rustc_middle::mir::visit::Visitor;
        let mut v = V { tcx, calls: &mut calls, other: &mut other };
        v.visit_body(body);
    }
    for bb in body.basic_blocks.iter() {
        if let TerminatorKind::InlineAsm { .. } = bb.terminator().kind {
            other.insert("inline assembly".into());
        }
        for s in &bb.statements {
            let _ = matches!(s.kind, StatementKind::Assign(..));
        }
    }
    (calls, other)
}
fn strs(s: BTreeSet<String>) -> J {
    J::A(s.into_iter().map(J::S).collect())
}
pub fn facts(tcx: TyCtxt<'_>) -> J {
    let ev = tcx.effective_visibilities(());
    let (mut fns, mut adts, mut statics, mut foreign, mut impls) = (vec![], vec![], vec![], vec![], vec![]);
    let items = tcx.hir_crate_items(());
    let defs: Vec<LocalDefId> = items.definitions().collect();
    let mut bodies: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    bodies.sort_by_key(|d| d.local_def_index.as_u32());
    for d in bodies {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let (file, line) = loc(tcx, tcx.def_span(did));
        let mut u = Unsafe { tcx, found: vec![], asm: 0 };
        if let Some(b) = tcx.hir_maybe_body_owned_by(d) {
            u.visit_body(b);
        }
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let (mut c, mut o) = (BTreeSet::new(), BTreeSet::new());
        let mut sig_unsafe = false;
        let (mut ins, mut out) = (vec![], J::Null);
        if is_fn {
            let b = tcx.optimized_mir(did);
            (c, o) = callees(tcx, b);
            if kind != DefKind::Closure {
                let sig = tcx.fn_sig(did).skip_binder();
                sig_unsafe = sig.safety() == hir::Safety::Unsafe;
                ins = sig.inputs().skip_binder().iter().map(|t| J::S(t.to_string())).collect();
                out = J::S(sig.output().skip_binder().to_string());
            }
        }
        fns.push(J::O(vec![
            ("name", J::S(tcx.def_path_str(did))),
            ("kind", J::S(format!("{:?}", kind))),
            ("file", file),
            ("line", line),
            ("exported", J::B(ev.is_reachable(d))),
            ("inputs", J::A(ins)),
            ("output", out),
            ("unsafe_fn", J::B(sig_unsafe)),
            ("unsafe_blocks", J::A(u.found.iter().map(|(f, l)| J::A(vec![J::S(f.clone()), J::n(*l)])).collect())),
            ("asm", J::n(u.asm)),
            ("calls", strs(c)),
            ("other", strs(o)),
        ]));
    }
    let tr = |s| tcx.get_diagnostic_item(s);
    for d in defs {
        let did = d.to_def_id();
        let (file, line) = loc(tcx, tcx.def_span(did));
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let generic = tcx.generics_of(did).own_counts().types > 0;
                let def = tcx.adt_def(did);
                let mut fields = vec![];
                for v in def.variants() {
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fields.push(J::O(vec![
                            ("variant", J::S(v.name.to_string())),
                            ("name", J::S(f.name.to_string())),
                            ("ty", J::S(ft.to_string())),
                            ("exported", J::B(f.did.as_local().map_or(false, |l| ev.is_reachable(l)))),
                        ]));
                    }
                }
                let env = ty::TypingEnv::post_analysis(tcx, did);
                adts.push(J::O(vec![
                    ("name", J::S(tcx.def_path_str(did))),
                    ("file", file),
                    ("line", line),
                    ("exported", J::B(ev.is_reachable(d))),
                    ("enum", J::B(def.is_enum())),
                    ("generic", J::B(generic)),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("send", implements(tcx, did, t, tr(sym::Send))),
                    ("sync", implements(tcx, did, t, tcx.lang_items().sync_trait())),
                    ("debug", implements(tcx, did, t, tr(sym::Debug))),
                    ("clone", implements(tcx, did, t, tcx.lang_items().clone_trait())),
                    ("copy", implements(tcx, did, t, tcx.lang_items().copy_trait())),
                    ("fields", J::A(fields)),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, did);
                statics.push(J::O(vec![
                    ("name", J::S(tcx.def_path_str(did))),
                    ("file", file),
                    ("line", line),
                    ("mutable", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("thread_local", J::B(tcx.is_thread_local_static(did))),
                    ("ty", J::S(t.to_string())),
                ]));
            }
            DefKind::ForeignMod => foreign.push(J::A(vec![file, line])),
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(did);
                impls.push(J::O(vec![
                    ("trait", J::S(tcx.def_path_str(h.trait_ref.skip_binder().def_id))),
                    ("self", J::S(h.trait_ref.skip_binder().self_ty().to_string())),
                    ("unsafe", J::B(h.safety == hir::Safety::Unsafe)),
                    ("file", file),
                    ("line", line),
                ]));
            }
            _ => {}
        }
    }
    J::O(vec![("fns", J::A(fns)), ("adts", J::A(adts)), ("statics", J::A(statics)), ("foreign", J::A(foreign)), ("impls", J::A(impls))])
}
