//! Every place of the crate where Rust's guarantees are switched off: unsafe blocks, functions, impls and
//! traits, foreign items, mutable statics, inline assembly and symbols given a fixed name. Code that comes
//! out of macros of other crates (std, lazy_static, ...) is theirs.
use crate::{s, J};
use rustc_hir as hir;
use rustc_hir::def_id::LOCAL_CRATE;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use rustc_span::{ExpnKind, Span};

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
    bodies: usize,
    items: usize,
    blocks: usize,
}

impl<'tcx> V<'tcx> {
    /// the crate whose text a span is
    fn owner(&self, sp: Span) -> String {
        let d = sp.ctxt().outer_expn_data();
        match (d.kind, d.macro_def_id) {
            (ExpnKind::Macro(..), Some(m)) => self.tcx.crate_name(m.krate).to_string(),
            (ExpnKind::Root, _) => self.tcx.crate_name(LOCAL_CRATE).to_string(),
            (k, _) => format!("{:?}", k),
        }
    }
    fn add(&mut self, what: &str, sp: Span, at: hir::HirId) {
        let owner = self.owner(sp);
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| format!("{:?}", r))
            }
            x => format!("{:?}", x),
        };
        let inside = tcx.def_path_str(at.owner.def_id.to_def_id());
        self.out.push(J::O(vec![
            ("what", s(what)),
            ("owner", s(owner)),
            ("in", s(inside)),
            ("at", s(format!("{}:{}", f, lo.line))),
        ]));
    }
    fn header(&mut self, h: &hir::FnHeader, sp: Span, at: hir::HirId) {
        if h.is_unsafe() {
            self.add("unsafe function", sp, at);
        }
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_body(&mut self, b: &hir::Body<'tcx>) {
        self.bodies += 1;
        intravisit::walk_body(self, b);
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        self.blocks += 1;
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.add("unsafe block", b.span, b.hir_id);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind {
            self.add("inline assembly", e.span, e.hir_id);
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        self.items += 1;
        let id = i.hir_id();
        match &i.kind {
            hir::ItemKind::Fn { sig, .. } => self.header(&sig.header, i.span, id),
            hir::ItemKind::Impl(m) => {
                if let Some(t) = m.of_trait {
                    if t.safety.is_unsafe() {
                        self.add("unsafe impl", i.span, id);
                    }
                }
            }
            hir::ItemKind::Trait { safety, .. } if safety.is_unsafe() => self.add("unsafe trait", i.span, id),
            hir::ItemKind::ForeignMod { items, .. } if !items.is_empty() => self.add("foreign items", i.span, id),
            hir::ItemKind::GlobalAsm { .. } => self.add("inline assembly", i.span, id),
            hir::ItemKind::Static(hir::Mutability::Mut, ..) => self.add("mutable static", i.span, id),
            _ => {}
        }
        let c = self.tcx.codegen_fn_attrs_or(i.owner_id.def_id);
        if c {
            self.add("fixed symbol name", i.span, id);
        }
        intravisit::walk_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        if let hir::ImplItemKind::Fn(sig, _) = &i.kind {
            self.header(&sig.header, i.span, i.hir_id());
        }
        intravisit::walk_impl_item(self, i);
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        if let hir::TraitItemKind::Fn(sig, _) = &i.kind {
            self.header(&sig.header, i.span, i.hir_id());
        }
        intravisit::walk_trait_item(self, i);
    }
}

trait Attrs {
    fn codegen_fn_attrs_or(&self, d: rustc_hir::def_id::LocalDefId) -> bool;
}
impl<'tcx> Attrs for TyCtxt<'tcx> {
    fn codegen_fn_attrs_or(&self, d: rustc_hir::def_id::LocalDefId) -> bool {
        use rustc_hir::def::DefKind::*;
        if !matches!(self.def_kind(d), Fn | AssocFn | Static { .. }) {
            return false;
        }
        self.codegen_fn_attrs(d.to_def_id()).contains_extern_indicator()
    }
}

pub fn run(tcx: TyCtxt<'_>) -> String {
    let mut v = V { tcx, out: vec![], bodies: 0, items: 0, blocks: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let j = J::O(vec![
        ("found", J::A(v.out)),
        ("bodies", J::I(v.bodies as i128)),
        ("items", J::I(v.items as i128)),
        ("blocks", J::I(v.blocks as i128)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    o
}
