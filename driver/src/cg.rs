//! The monomorphic call graph of everything reachable from the roots, through every crate whose
//! MIR is available: calls, drops, vtables, function values and functions in constants.
use crate::{s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

pub struct Graph<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    out: Vec<J>,
    queue: VecDeque<Instance<'tcx>>,
    statics: HashMap<DefId, usize>,
    static_out: Vec<J>,
    allocs: HashSet<(usize, AllocId)>,
}

/// what happens in one body
struct Found<'tcx> {
    /// (target, how, where)
    edges: Vec<(usize, &'static str, String)>,
    statics: Vec<(usize, String)>,
    /// `f as usize` and the like
    exposes: Vec<String>,
    notes: Vec<String>,
    _p: std::marker::PhantomData<&'tcx ()>,
}

struct Vis<'a, 'b, 'tcx> {
    g: &'a mut Graph<'tcx>,
    b: &'b mir::Body<'tcx>,
    f: Found<'tcx>,
    span: rustc_span::Span,
}

impl<'tcx> Graph<'tcx> {
    pub fn run(tcx: TyCtxt<'tcx>, all: bool) -> String {
        let mut g = Graph {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            ids: HashMap::new(),
            out: Vec::new(),
            queue: VecDeque::new(),
            statics: HashMap::new(),
            static_out: Vec::new(),
            allocs: HashSet::new(),
        };
        let mut roots = Vec::new();
        let mut states = Vec::new();
        for def in tcx.mir_keys(()) {
            let did = def.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let n = tcx.item_name(did).to_string();
            if let Some(m) = n.strip_prefix("state_") {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                for t in sig.skip_binder().inputs() {
                    let mut out = vec![];
                    g.cells(*t, "", &mut HashSet::new(), &mut out);
                    let t = g.ty_str(*t);
                    states.push(J::A(vec![s(m), s(t), J::A(out.into_iter().map(s).collect())]));
                }
            }
            if n.starts_with("root_") || (all && !tcx.generics_of(did).requires_monomorphization(tcx)) {
                let i = Instance::mono(tcx, did);
                let j = g.id(i);
                roots.push(J::A(vec![s(if all { g.path(did) } else { n }), J::I(j as i128)]));
            }
        }
        while let Some(i) = g.queue.pop_front() {
            g.process(i);
        }
        let j = J::O(vec![
            ("roots", J::A(roots)),
            ("states", J::A(states)),
            ("nodes", J::A(std::mem::take(&mut g.out))),
            ("statics", J::A(std::mem::take(&mut g.static_out))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        o
    }

    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn plain(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let mut out = self.tcx.crate_name(d.krate).to_string();
        for e in &p.data {
            let _ = write!(out, "::{}", e.as_sym(true));
        }
        out
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }
    fn zst(&self, t: Ty<'tcx>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(t)).map_or(false, |l| l.is_zst())
    }
    /// where a value of the type can be changed through a shared reference: ways to an UnsafeCell
    fn cells(&self, t: Ty<'tcx>, way: &str, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>) {
        let tcx = self.tcx;
        if !seen.insert(t) {
            return;
        }
        match *t.kind() {
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                if d.is_unsafe_cell() {
                    out.push(way.to_string());
                    return;
                }
                if d.is_phantom_data() || p.starts_with("regex::") {
                    // (a regex's caches do not change what it matches)
                    return;
                }
                if p == "alloc::sync::Arc" || p == "alloc::rc::Rc" {
                    // shared ownership: the counters tell nobody anything
                    return self.cells(a.type_at(0), &format!("{}.*", way), seen, out);
                }
                for v in d.variants() {
                    for f in &v.fields {
                        let ft = f.ty(tcx, a).skip_norm_wip();
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft))
                            .unwrap_or(ft);
                        self.cells(ft, &format!("{}.{}", way, f.name), seen, out);
                    }
                }
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Array(x, _) | ty::Slice(x) => {
                self.cells(x, &format!("{}.*", way), seen, out)
            }
            ty::Tuple(xs) => {
                for (n, x) in xs.iter().enumerate() {
                    self.cells(x, &format!("{}.{}", way, n), seen, out);
                }
            }
            ty::Closure(_, a) => {
                for (n, x) in a.as_closure().upvar_tys().iter().enumerate() {
                    self.cells(x, &format!("{}.{}", way, n), seen, out);
                }
            }
            _ => {}
        }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| format!("{:?}", r))
            }
            x => format!("{:?}", x),
        };
        format!("{}:{}", f, lo.line)
    }

    fn id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let id = self.out.len();
        self.ids.insert(i, id);
        self.out.push(J::Null);
        self.queue.push_back(i);
        id
    }
    fn stat(&mut self, d: DefId) -> usize {
        if let Some(x) = self.statics.get(&d) {
            return *x;
        }
        let id = self.static_out.len();
        self.statics.insert(d, id);
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let frozen = t.is_freeze(tcx, self.env);
        // a value computed once, from nothing but constants, does not change
        let mut content = t;
        while let ty::Adt(x, a) = content.kind() {
            let p = self.path(x.did());
            let last = p.rsplit("::").next().unwrap_or("").to_string();
            if ["Lazy", "LazyLock", "OnceLock", "OnceCell", "LazyCell", "Once"].contains(&last.as_str())
                && (p.starts_with("lazy_static") || p.starts_with("std::") || p.starts_with("once_cell") || p.starts_with("core::"))
                && a.types().next().is_some()
            {
                content = a.type_at(0);
            } else {
                break;
            }
        }
        let mut cells = vec![];
        self.cells(content, "", &mut HashSet::new(), &mut cells);
        self.static_out.push(J::O(vec![
            ("path", s(self.path(d))),
            ("crate", s(tcx.crate_name(d.krate))),
            ("t", s(self.ty_str(t))),
            ("mut", J::B(tcx.is_mutable_static(d))),
            ("freeze", J::B(frozen)),
            ("cells", J::A(cells.into_iter().map(s).collect())),
            ("tls", J::B(tcx.is_thread_local_static(d))),
        ]));
        id
    }

    fn process(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let id = self.ids[&i];
        let did = i.def.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(..) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            _ => "shim",
        };
        let mut sf = String::new();
        let mut tr = String::new();
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            let imp = tcx.trait_impl_of_assoc(did).or_else(|| tcx.inherent_impl_of_assoc(did));
            if let Some(imp) = imp {
                if i.args.len() >= tcx.generics_of(imp).count() {
                    let st = tcx.type_of(imp).instantiate(tcx, i.args).skip_norm_wip();
                    if let Ok(st) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st)) {
                        sf = self.ty_str(st);
                    }
                }
                if tcx.trait_impl_of_assoc(did).is_some() {
                    let t = tcx.impl_trait_ref(imp).skip_binder().def_id;
                    tr = format!("{}::{}", self.path(t), tcx.item_name(did));
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                tr = format!("{}::{}", self.path(t), tcx.item_name(did));
                if i.args.len() > 0 && i.args[0].as_type().is_some() {
                    sf = self.ty_str(i.args.type_at(0));
                }
            }
        } else if let InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) = i.def {
            sf = self.ty_str(t);
        }
        let avail = match i.def {
            InstanceKind::Item(d) => {
                tcx.is_mir_available(d) && !tcx.is_foreign_item(d)
                    && !matches!(tcx.def_kind(d), DefKind::Ctor(..) | DefKind::Static { .. })
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(..) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            _ => true,
        };
        let mut edges = J::A(vec![]);
        let mut stats = J::A(vec![]);
        let mut exposes = J::A(vec![]);
        let mut notes = J::A(vec![]);
        let mut spins = J::A(vec![]);
        if avail {
            let b = tcx.instance_mir(i.def);
            let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
            let mut v = Vis {
                g: self,
                b: &b,
                f: Found { edges: vec![], statics: vec![], exposes: vec![], notes: vec![], _p: std::marker::PhantomData },
                span: tcx.def_span(did),
            };
            v.visit_body(&b);
            let f = v.f;
            let own = did.krate == LOCAL_CRATE || tcx.crate_name(did.krate).as_str() == "hyperdrive";
            if own {
                spins = J::A(self.spins(&b).into_iter().map(s).collect());
            }
            edges = J::A(f.edges.into_iter().map(|(t, k, w)| J::A(vec![J::I(t as i128), s(k), s(w)])).collect());
            stats = J::A(f.statics.into_iter().map(|(t, w)| J::A(vec![J::I(t as i128), s(w)])).collect());
            exposes = J::A(f.exposes.into_iter().map(s).collect());
            notes = J::A(f.notes.into_iter().map(s).collect());
        }
        self.out[id] = J::O(vec![
            ("path", s(self.path(did))),
            ("plain", s(self.plain(did))),
            ("crate", s(tcx.crate_name(did.krate))),
            ("local", J::B(did.krate == LOCAL_CRATE)),
            ("kind", s(kind)),
            ("trait", s(tr)),
            ("self", s(sf)),
            ("args", J::A(i.args.types().map(|t| s(self.ty_str(t))).collect())),
            ("zargs", J::A(i.args.types().map(|t| J::B(self.zst(t))).collect())),
            ("body", J::B(avail)),
            ("foreign", J::B(tcx.is_foreign_item(did))),
            ("span", s(self.span(tcx.def_span(did)))),
            ("edges", edges),
            ("statics", stats),
            ("exposes", exposes),
            ("notes", notes),
            ("spins", spins),
        ]);
    }
}

impl<'tcx> Graph<'tcx> {
    /// Calls that wait by asking again and again: in a cycle on which nothing became ready.
    fn spins(&self, b: &mir::Body<'tcx>) -> Vec<String> {
        use mir::TerminatorKind::*;
        let tcx = self.tcx;
        // the value of each local that tells whether something is ready: (local, value when it is not)
        let mut tells: HashMap<mir::Local, u128> = HashMap::new();
        let name = |func: &mir::Operand<'tcx>| match *func.ty(&b.local_decls, tcx).kind() {
            ty::FnDef(d, _) => {
                let d: DefId = d.into();
                let p = tcx.def_path(d);
                Some((tcx.item_name(d).to_string(), tcx.crate_name(p.krate).to_string(), self.path(d)))
            }
            _ => None,
        };
        for d in b.basic_blocks.iter() {
            for st in &d.statements {
                if let mir::StatementKind::Assign(a) = &st.kind {
                    if let (Some(l), mir::Rvalue::Discriminant(p)) = (a.0.as_local(), &a.1) {
                        if let ty::Adt(d, _) = p.ty(&b.local_decls, tcx).ty.kind() {
                            let n = self.path(d.did());
                            if n == "futures::poll::Async" || n == "core::task::poll::Poll" {
                                tells.insert(l, 1);
                            }
                        }
                    }
                }
            }
            if let Call { func, destination, .. } = &d.terminator().kind {
                if let (Some(l), Some((n, _, p))) = (destination.as_local(), name(func)) {
                    if p.contains("Async") || p.contains("task::poll") {
                        if n == "is_ready" {
                            tells.insert(l, 0);
                        } else if n == "is_not_ready" || n == "is_pending" {
                            tells.insert(l, 1);
                        }
                    }
                }
            }
        }
        let next = |x: mir::BasicBlock| -> Vec<mir::BasicBlock> {
            match &b.basic_blocks[x].terminator().kind {
                SwitchInt { discr, targets } => {
                    if let Some(l) = discr.place().and_then(|p| p.as_local()) {
                        if let Some(v) = tells.get(&l) {
                            return vec![targets.target_for_value(*v)];
                        }
                    }
                    targets.all_targets().to_vec()
                }
                _ => b.basic_blocks[x]
                    .terminator()
                    .successors()
                    .filter(|y| !b.basic_blocks[*y].is_cleanup)
                    .collect(),
            }
        };
        let mut out = Vec::new();
        for (x, d) in b.basic_blocks.iter_enumerated() {
            if d.is_cleanup {
                continue;
            }
            let Call { func, target: Some(t), .. } = &d.terminator().kind else { continue };
            let Some((n, k, p)) = name(func) else { continue };
            let atomic = n == "load" && p.contains("atomic");
            let asks = n == "poll" || n.starts_with("poll_") || n == "try_recv" || n == "try_lock" || n == "try_read"
                || n == "try_write" || n == "spin_loop" || n == "spin_loop_hint" || n == "yield_now"
                || (p.contains("Instant") && (n == "now" || n == "elapsed")) || atomic;
            if !asks {
                continue;
            }
            let mut seen = HashSet::new();
            let mut todo = vec![*t];
            let mut cas = false;
            while let Some(y) = todo.pop() {
                if !seen.insert(y) {
                    continue;
                }
                if let Call { func, .. } = &b.basic_blocks[y].terminator().kind {
                    if let Some((n, ..)) = name(func) {
                        cas |= n.starts_with("compare_exchange") || n == "compare_and_swap";
                    }
                }
                if y != x {
                    todo.extend(next(y));
                }
            }
            if seen.contains(&x) && !(atomic && cas) {
                out.push(format!("{} ({}) at {}", n, k, self.span(d.terminator().source_info.span)));
            }
        }
        out
    }
}

impl<'a, 'b, 'tcx> Vis<'a, 'b, 'tcx> {
    fn edge(&mut self, i: Instance<'tcx>, how: &'static str) {
        let sp = self.g.span(self.span);
        let t = self.g.id(i);
        self.f.edges.push((t, how, sp));
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, how: &'static str) {
        let tcx = self.g.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return;
        }
        match Instance::try_resolve(tcx, self.g.env, d, args) {
            Ok(Some(i)) => self.edge(i, how),
            _ => {
                let p = self.g.path(d);
                self.f.notes.push(format!("unresolved {}", p));
            }
        }
    }
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, depth: usize) {
        let tcx = self.g.tcx;
        if depth > 6 || from == to {
            return;
        }
        match (from.kind(), to.kind()) {
            (_, ty::Dynamic(preds, _)) if !matches!(from.kind(), ty::Dynamic(..)) => {
                if let Some(p) = preds.principal() {
                    let p = tcx.instantiate_bound_regions_with_erased(p);
                    let tr = p.with_self_ty(tcx, from);
                    let tr = tcx.erase_and_anonymize_regions(tr);
                    if !tr.has_escaping_bound_vars() {
                        for e in tcx.vtable_entries(tr) {
                            if let ty::VtblEntry::Method(i) = e {
                                self.edge(*i, "vtable");
                            }
                        }
                    }
                }
                self.drop_of(from);
            }
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => {
                self.unsize(*a, *b, depth + 1)
            }
            (ty::Adt(d, a), ty::Adt(e, b)) if d == e => {
                for (x, y) in a.types().zip(b.types()) {
                    self.unsize(x, y, depth + 1);
                }
            }
            (ty::Tuple(a), ty::Tuple(b)) => {
                for (x, y) in a.iter().zip(b.iter()) {
                    self.unsize(x, y, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn drop_of(&mut self, t: Ty<'tcx>) {
        let i = Instance::resolve_drop_glue(self.g.tcx, t);
        if !matches!(i.def, InstanceKind::Shim(ShimKind::DropGlue(_, None))) {
            self.edge(i, "drop");
        }
    }
    fn alloc(&mut self, a: AllocId, depth: usize) {
        let tcx = self.g.tcx;
        if depth > 12 {
            return;
        }
        match tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Function { instance }) => self.edge(instance, "pointer"),
            Some(GlobalAlloc::VTable(t, preds)) => {
                if let Some(p) = preds.principal() {
                    let p = tcx.instantiate_bound_regions_with_erased(p);
                    let tr = tcx.erase_and_anonymize_regions(p.with_self_ty(tcx, t));
                    for e in tcx.vtable_entries(tr) {
                        if let ty::VtblEntry::Method(i) = e {
                            self.edge(*i, "vtable");
                        }
                    }
                }
                self.drop_of(t);
            }
            Some(GlobalAlloc::Static(d)) => {
                let x = self.g.stat(d);
                let w = self.g.span(self.span);
                self.f.statics.push((x, w));
                if !tcx.is_foreign_item(d) && !tcx.is_thread_local_static(d) {
                    if let Ok(m) = tcx.eval_static_initializer(d) {
                        for (_, p) in m.inner().provenance().ptrs().iter() {
                            self.alloc(p.alloc_id(), depth + 1);
                        }
                    }
                }
            }
            Some(GlobalAlloc::Memory(m)) => {
                for (_, p) in m.inner().provenance().ptrs().iter() {
                    self.alloc(p.alloc_id(), depth + 1);
                }
            }
            _ => {}
        }
    }
    fn value(&mut self, v: ConstValue) {
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => self.alloc(p.provenance.alloc_id(), 0),
            ConstValue::Slice { alloc_id, .. } | ConstValue::Indirect { alloc_id, .. } => self.alloc(alloc_id, 0),
            _ => {}
        }
    }
}

impl<'a, 'b, 'tcx> Visitor<'tcx> for Vis<'a, 'b, 'tcx> {
    fn visit_statement(&mut self, x: &mir::Statement<'tcx>, l: mir::Location) {
        self.span = x.source_info.span;
        self.super_statement(x, l);
    }
    fn visit_terminator(&mut self, x: &mir::Terminator<'tcx>, l: mir::Location) {
        self.span = x.source_info.span;
        use mir::TerminatorKind::*;
        match &x.kind {
            Call { func, .. } | TailCall { func, .. } => {
                let t = func.ty(&self.b.local_decls, self.g.tcx);
                match *t.kind() {
                    ty::FnDef(d, a) => self.callee(d.into(), a.no_bound_vars().unwrap(), "call"),
                    _ => {
                        let w = self.g.span(self.span);
                        self.f.notes.push(format!("indirect {}", w));
                    }
                }
            }
            Drop { place, .. } => {
                let t = place.ty(&self.b.local_decls, self.g.tcx).ty;
                self.drop_of(t);
            }
            InlineAsm { .. } => self.f.notes.push("asm".to_string()),
            _ => {}
        }
        self.super_terminator(x, l);
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
        if let mir::Rvalue::Cast(k, x, t) = r {
            let from = x.ty(&self.b.local_decls, self.g.tcx);
            match k {
                mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => self.unsize(from, *t, 0),
                mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _) => {
                    if let ty::FnDef(d, a) = *from.kind() {
                        self.callee(d.into(), a.no_bound_vars().unwrap(), "pointer");
                    }
                }
                mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) => {
                    if let ty::Closure(d, a) = *from.kind() {
                        let i = Instance::resolve_closure(self.g.tcx, d.into(), a, ty::ClosureKind::FnOnce);
                        self.edge(i, "pointer");
                    }
                }
                mir::CastKind::PointerExposeProvenance => {
                    let w = self.g.span(self.span);
                    self.f.exposes.push(w);
                }
                _ => {}
            }
        }
        if let mir::Rvalue::ThreadLocalRef(d) = r {
            let x = self.g.stat(*d);
            let w = self.g.span(self.span);
            self.f.statics.push((x, w));
        }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
        if let Ok(v) = c.const_.eval(self.g.tcx, self.g.env, c.span) {
            self.value(v);
        }
    }
}
