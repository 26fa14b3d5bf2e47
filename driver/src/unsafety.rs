//! Every operation of the crate's own source that needs `unsafe`, and every item through which safe code could reach
//! memory the type system does not guard: read off the type-checked HIR, whether or not anything calls it.
use crate::json::q;
use rustc_hir as hir;
use rustc_hir::def::{CtorKind, DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeckResults, TypingEnv};
use rustc_span::Span;

pub struct Found {
    pub kind: &'static str,
    pub detail: String,
    pub func: String,
    pub span: Span,
    pub from: String,
    pub to: String,
}

struct Vis<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    tables: Option<&'tcx TypeckResults<'tcx>>,
    owner: String,
    out: &'a mut Vec<Found>,
    blocks: usize,
    calls: usize,
}

/// code that a macro of the standard library (or the compiler itself) wrote
fn foreign(tcx: TyCtxt<'_>, sp: Span) -> bool {
    let mut d = sp.ctxt().outer_expn_data();
    loop {
        if d.is_root() {
            return false;
        }
        match d.kind {
            rustc_span::ExpnKind::Macro(..) => {
                if let Some(m) = d.macro_def_id {
                    if m.is_local() {
                        d = d.call_site.ctxt().outer_expn_data();
                        continue;
                    }
                    let c = tcx.crate_name(m.krate).to_string();
                    return c == "std" || c == "core" || c == "alloc";
                }
                return false;
            }
            rustc_span::ExpnKind::Desugaring(_) | rustc_span::ExpnKind::AstPass(_) => return true,
            rustc_span::ExpnKind::Root => return false,
        }
    }
}

impl<'a, 'tcx> Vis<'a, 'tcx> {
    fn add(&mut self, kind: &'static str, detail: String, span: Span) {
        self.out.push(Found { kind, detail, func: self.owner.clone(), span, from: String::new(), to: String::new() });
    }
    fn call(&mut self, def: hir::def_id::DefId, args: ty::GenericArgsRef<'tcx>, span: Span) {
        self.calls += 1;
        let path = self.tcx.def_path_str(def);
        if self.tcx.is_intrinsic(def, rustc_span::sym::transmute) || path.ends_with("mem::transmute") {
            let t = |i: usize| args.types().nth(i).map(|t| format!("{}", t)).unwrap_or_default();
            self.out.push(Found {
                kind: "transmute",
                detail: path,
                func: self.owner.clone(),
                span,
                from: t(0),
                to: t(1),
            });
            return;
        }
        if self.tcx.is_foreign_item(def) {
            self.add("foreign call", path, span);
        } else {
            self.add("unsafe call", path, span);
        }
    }
    fn is_unsafe_fn(&self, def: hir::def_id::DefId) -> bool {
        match self.tcx.def_kind(def) {
            DefKind::Fn | DefKind::AssocFn => self.tcx.fn_sig(def).skip_binder().safety().is_unsafe(),
            _ => false,
        }
    }
}

impl<'a, 'tcx> Visitor<'tcx> for Vis<'a, 'tcx> {
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        let mine = !foreign(self.tcx, e.span);
        if let (Some(tb), true) = (self.tables, mine) {
            match e.kind {
                hir::ExprKind::Block(b, _) => {
                    if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                        self.blocks += 1;
                    }
                }
                hir::ExprKind::Path(ref p) => {
                    let r = tb.qpath_res(p, e.hir_id);
                    if let Res::Def(k, def) = r {
                        match k {
                            DefKind::Fn | DefKind::AssocFn => {
                                if self.is_unsafe_fn(def) {
                                    self.call(def, tb.node_args(e.hir_id), e.span);
                                }
                            }
                            DefKind::Static { .. } => {
                                if self.tcx.is_foreign_item(def) {
                                    self.add("foreign static", self.tcx.def_path_str(def), e.span);
                                }
                            }
                            DefKind::Ctor(_, CtorKind::Fn) => {}
                            _ => {}
                        }
                    }
                }
                hir::ExprKind::MethodCall(..) => {
                    if let Some(def) = tb.type_dependent_def_id(e.hir_id) {
                        if self.is_unsafe_fn(def) {
                            self.call(def, tb.node_args(e.hir_id), e.span);
                        }
                    }
                }
                hir::ExprKind::Call(f, _) => {
                    // a value of an unsafe function pointer type
                    let t: Ty<'tcx> = tb.expr_ty_adjusted(f);
                    if let ty::FnPtr(..) = t.kind() {
                        if t.fn_sig(self.tcx).skip_binder().safety().is_unsafe() {
                            self.add("unsafe call", format!("{}", t), e.span);
                        }
                    }
                }
                hir::ExprKind::Unary(hir::UnOp::Deref, x) => {
                    let t = tb.expr_ty_adjusted(x);
                    if t.is_raw_ptr() {
                        self.add("raw pointer dereference", format!("{}", t), e.span);
                    }
                }
                hir::ExprKind::Field(x, _) => {
                    if let ty::Adt(a, _) = tb.expr_ty_adjusted(x).kind() {
                        if a.is_union() {
                            self.add("union field", format!("{}", tb.expr_ty_adjusted(x)), e.span);
                        }
                    }
                }
                hir::ExprKind::InlineAsm(..) => self.add("inline assembly", String::new(), e.span),
                _ => {}
            }
        }
        intravisit::walk_expr(self, e);
    }
}

pub fn collect(tcx: TyCtxt<'_>, span: &dyn Fn(Span) -> String) -> String {
    with_no_trimmed_paths!({
        let mut out: Vec<Found> = vec![];
        let mut bodies = 0;
        let (mut blocks, mut calls) = (0, 0);
        for ld in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(ld);
            bodies += 1;
            let mut v = Vis {
                tcx,
                tables: Some(tcx.typeck(ld)),
                owner: tcx.def_path_str(ld.to_def_id()),
                out: &mut out,
                blocks: 0,
                calls: 0,
            };
            v.visit_expr(body.value);
            blocks += v.blocks;
            calls += v.calls;
        }
        let env = TypingEnv::fully_monomorphized();
        let mut items = 0;
        let mut statics = 0;
        for ld in tcx.hir_crate_items(()).definitions() {
            let def = ld.to_def_id();
            items += 1;
            let sp = tcx.def_span(def);
            if let DefKind::Const { .. } = tcx.def_kind(def) {
                let t = tcx.type_of(def).instantiate_identity().skip_normalization();
                if let ty::Adt(a, _) = t.kind() {
                    if tcx.def_path_str(a.did()) == "std::thread::LocalKey" {
                        let name = tcx.def_path_str(def);
                        let (func, span) = (name, sp);
                        out.push(Found { kind: "thread-local state", detail: format!("{}", t), func, span, from: String::new(), to: String::new() });
                    }
                }
            }
            if foreign(tcx, sp) {
                continue; // what a derive of the standard library wrote
            }
            let name = tcx.def_path_str(def);
            let mut put = |kind: &'static str, detail: String| {
                out.push(Found { kind, detail, func: name.clone(), span: sp, from: String::new(), to: String::new() })
            };
            match tcx.def_kind(def) {
                DefKind::Static { mutability, nested, .. } => {
                    if nested {
                        continue;
                    }
                    statics += 1;
                    let ty = tcx.type_of(def).instantiate_identity().skip_normalization();
                    if mutability.is_mut() {
                        put("mutable static", format!("{}", ty));
                    } else if !ty.is_freeze(tcx, env) {
                        put("static with interior mutability", format!("{}", ty));
                    }
                }
                DefKind::ForeignMod => put("foreign block", String::new()),
                DefKind::Union => put("union", String::new()),
                DefKind::Trait => {
                    if tcx.trait_def(def).safety.is_unsafe() {
                        put("unsafe trait", String::new());
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    if tcx.impl_trait_header(def).safety.is_unsafe() {
                        put("unsafe impl", String::new());
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(def).skip_binder().safety().is_unsafe() && !tcx.is_foreign_item(def) {
                        put("unsafe function", String::new());
                    }
                    let at = tcx.codegen_fn_attrs(def);
                    if at.contains_extern_indicator() {
                        put("exported symbol", String::new());
                    }
                }
                _ => {}
            }
        }
        let l: Vec<String> = out
            .iter()
            .map(|f| {
                format!(
                    "{{\"kind\":{},\"detail\":{},\"fn\":{},\"span\":{},\"from\":{},\"to\":{}}}",
                    q(f.kind),
                    q(&f.detail),
                    q(&f.func),
                    q(&span(f.span)),
                    q(&f.from),
                    q(&f.to)
                )
            })
            .collect();
        format!(
            "{{\"found\":[{}],\"bodies\":{},\"blocks\":{},\"calls\":{},\"items\":{},\"statics\":{}}}",
            l.join(",\n"),
            bodies,
            blocks,
            calls,
            items,
            statics
        )
    })
}
