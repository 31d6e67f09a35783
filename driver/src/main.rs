//! A rustc driver that compiles one crate (type-check and MIR only) and writes the
//! monomorphic MIR of everything reachable from its `root_*` functions as JSON.
//!
//! usage: mirdump OUT.json EXPAND[,EXPAND...] <rustc arguments...>
//!
//! EXPAND are prefixes of definition paths whose bodies are followed (besides those of the
//! local crate); everything else is recorded as a call without a body.
//!
//! With EXPAND `@roots` or `@all` it writes the call graph (see cg.rs) from the `root_*` functions
//! or from every function of the crate instead.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod cg;
mod raw;

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{alloc_range, AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashSet, HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
macro_rules! o { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    expand: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<Option<J>>,
    queue: VecDeque<Instance<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    statics: HashMap<DefId, usize>,
    static_out: Vec<J>,
    /// `futures::Future::poll` and the types of the analysed crates implementing it
    poll: Option<DefId>,
    futures: HashSet<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            x => format!("{:?}", x),
        };
        J::S(format!("{}:{}", f, lo.line))
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::Null);
        let st = J::S(self.ty_str(t));
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => o! {"k": s("bool"), "s": st},
            ty::Char => o! {"k": s("char"), "s": st},
            ty::Int(i) => o! {"k": s("int"), "s": st, "bits": J::I(i.bit_width().unwrap_or(64) as i128)},
            ty::Uint(i) => o! {"k": s("uint"), "s": st, "bits": J::I(i.bit_width().unwrap_or(64) as i128)},
            ty::Str => o! {"k": s("str"), "s": st},
            ty::Never => o! {"k": s("never"), "s": st},
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                o! {"k": s("ref"), "s": st, "to": i, "mut": J::B(m.is_mut())}
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                o! {"k": s("ptr"), "s": st, "to": i, "mut": J::B(m.is_mut())}
            }
            ty::Slice(inner) => {
                let i = self.ty(inner);
                o! {"k": s("slice"), "s": st, "to": i}
            }
            ty::Array(inner, n) => {
                let i = self.ty(inner);
                let n = n.try_to_target_usize(tcx).map(|x| x as i128).unwrap_or(-1);
                o! {"k": s("array"), "s": st, "to": i, "len": J::I(n)}
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o! {"k": s("tuple"), "s": st, "to": J::A(v)}
            }
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let a = args.types().map(|x| self.ty(x)).collect();
                let follow = def.is_enum() || def.is_struct();
                let vs = if follow {
                    let mut v = Vec::new();
                    for (vi, vd) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val as i128
                        } else {
                            0
                        };
                        // Field types only of enums and of local or hyperdrive types; everything else is
                        // handled abstractly
                        let mut fs = Vec::new();
                        for f in vd.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                            let t = match ft {
                                Ok(ft) => self.ty(ft),
                                Err(_) => J::Null,
                            };
                            fs.push(o! {"n": s(f.name), "t": t});
                        }
                        v.push(o! {"n": s(vd.name), "d": J::I(discr), "f": J::A(fs)});
                    }
                    J::A(v)
                } else {
                    J::Null
                };
                let mut poll = J::Null;
                if self.futures.contains(&def.did()) {
                    let pa = tcx.mk_args(&[t.into()]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, self.poll.unwrap(), pa) {
                        poll = self.inst(i);
                    }
                }
                o! {"k": s("adt"), "s": st, "path": s(path), "args": J::A(a), "enum": J::B(def.is_enum()),
                    "box": J::B(def.is_box()), "variants": vs, "poll": poll}
            }
            ty::Closure(d, args) => {
                let i = self.inst(Instance::new_raw(d.into(), args));
                let ups = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                o! {"k": s("closure"), "s": st, "path": s(self.path(d.into())), "inst": i, "kind": s(kind), "upvars": J::A(ups)}
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let did: DefId = d.into();
                let (i, decl) = self.callee(did, args);
                o! {"k": s("fndef"), "s": st, "inst": i, "decl": decl}
            }
            ty::FnPtr(..) => o! {"k": s("fnptr"), "s": st},
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| s(self.path(d))).unwrap_or(J::Null);
                o! {"k": s("dyn"), "s": st, "path": p}
            }
            _ => o! {"k": s("other"), "s": st},
        };
        self.type_out[id] = j;
        id
    }

    /// Describes the declared callee (before trait resolution).
    fn decl(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v: Vec<(&'static str, J)> = vec![("path", s(self.path(did)))];
        let mut tr = J::Null;
        if let Some(t) = tcx.trait_of_assoc(did) {
            tr = s(format!("{}::{}", self.path(t), tcx.item_name(did)));
        }
        v.push(("trait", tr));
        let a = args.types().map(|t| self.ty(t)).collect();
        v.push(("args", J::A(a)));
        v.push(("intrinsic", J::B(tcx.intrinsic(did).is_some())));
        J::O(v)
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> (J, J) {
        let tcx = self.tcx;
        let d = self.decl(did, args);
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            // constructors
            return (J::Null, d);
        }
        let inst = Instance::try_resolve(tcx, self.env, did, args).ok().flatten();
        let i = match inst {
            Some(i) => self.inst(i),
            None => J::Null,
        };
        (i, d)
    }

    fn should_expand(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let p = self.path(d);
                if let Some(t) = self.tcx.trait_impl_of_assoc(d) {
                    let _ = t;
                }
                d.krate == LOCAL_CRATE || self.expand.iter().any(|e| {
                    p.starts_with(e.as_str()) || (p.starts_with('<') && p[1..].starts_with(e.as_str()))
                        || self.def_path_plain(d).starts_with(e.as_str())
                })
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Reify(..)) => true,
            _ => false,
        }
    }
    /// Path of the definition's place in the module tree (an impl counts where it is written).
    fn def_path_plain(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let mut out = self.tcx.crate_name(d.krate).to_string();
        for e in &p.data {
            let _ = write!(out, "::{}", e.as_sym(true));
        }
        out
    }

    fn inst(&mut self, i: Instance<'tcx>) -> J {
        if let Some(id) = self.insts.get(&i) {
            return J::I(*id as i128);
        }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(None);
        self.queue.push_back(i);
        J::I(id as i128)
    }

    fn process(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let id = self.insts[&i];
        let did = i.def.def_id();
        let mut v: Vec<(&'static str, J)> = Vec::new();
        v.push(("id", J::I(id as i128)));
        v.push(("path", s(self.path(did))));
        v.push(("plain", s(self.def_path_plain(did))));
        v.push(("crate", s(tcx.crate_name(did.krate))));
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            _ => "other",
        };
        v.push(("kind", s(kind)));
        let a: Vec<J> = i.args.types().map(|t| self.ty(t)).collect();
        v.push(("args", J::A(a)));
        // trait item implemented by this function
        let mut tr = J::Null;
        let mut sf = J::Null;
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(imp) = tcx.trait_impl_of_assoc(did) {
                let t = tcx.impl_trait_ref(imp).skip_binder().def_id;
                tr = s(format!("{}::{}", self.path(t), tcx.item_name(did)));
                let st = tcx.type_of(imp).instantiate(tcx, i.args).skip_norm_wip();
                if let Ok(st) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st)) {
                    sf = self.ty(st);
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                tr = s(format!("{}::{}", self.path(t), tcx.item_name(did)));
                if i.args.len() > 0 && i.args[0].as_type().is_some() {
                    sf = self.ty(i.args.type_at(0));
                }
            } else if let Some(imp) = tcx.inherent_impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate(tcx, i.args).skip_norm_wip();
                if let Ok(st) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st)) {
                    sf = self.ty(st);
                }
            }
        }
        v.push(("trait", tr));
        v.push(("self", sf));
        let mut body = J::Null;
        if self.should_expand(i) {
            let avail = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
                _ => true,
            };
            if avail {
                let b = tcx.instance_mir(i.def);
                let b = i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                body = self.body(&b);
            }
        }
        v.push(("span", self.span(tcx.def_span(did))));
        v.push(("body", body));
        self.inst_out[id] = Some(J::O(v));
    }

    fn body(&mut self, b: &mir::Body<'tcx>) -> J {
        let locals = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Vec::new();
        for vi in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = vi.value {
                if let Some(l) = p.as_local() {
                    names.push(J::A(vec![J::I(l.as_u32() as i128), s(vi.name)]));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &bb.statements {
                if let Some(j) = self.stmt(b, x) {
                    st.push(j);
                }
            }
            let t = self.term(b, bb.terminator());
            blocks.push(o! {"s": J::A(st), "t": t, "c": J::B(bb.is_cleanup)});
        }
        o! {"locals": J::A(locals), "args": J::I(b.arg_count as i128),
            "spread": b.spread_arg.map(|l| J::I(l.as_u32() as i128)).unwrap_or(J::Null),
            "names": J::A(names), "blocks": J::A(blocks)}
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut pr = Vec::new();
        let _ = b;
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            pr.push(match e {
                Deref => s("*"),
                Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), J::I(f.as_u32() as i128), t])
                }
                Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)])
                }
                Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_u32() as i128)]),
                OpaqueCast(_) | UnwrapUnsafeBinder(_) => J::A(vec![s("cast")]),
                #[allow(unreachable_patterns)]
                _ => J::A(vec![s("cast")]),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(pr)])
    }

    fn operand(&mut self, b: &mir::Body<'tcx>, x: &mir::Operand<'tcx>) -> J {
        match x {
            mir::Operand::Copy(p) => J::A(vec![s("copy"), self.place(b, p)]),
            mir::Operand::Move(p) => J::A(vec![s("move"), self.place(b, p)]),
            mir::Operand::Constant(c) => {
                let j = self.konst(c);
                J::A(vec![s("const"), j])
            }
            mir::Operand::RuntimeChecks(c) => {
                J::A(vec![s("check"), J::B(matches!(c, mir::RuntimeChecks::OverflowChecks))])
            }
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        let mut name = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = s(self.path(u.def));
            }
        }
        let v = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(cv) => self.cval(cv, ty, 0),
            Err(_) => o! {"bad": s("const error")},
        };
        let t = self.ty(ty);
        o! {"t": t, "name": name, "v": v}
    }

    fn read_ptr(&self, a: AllocId, off: Size) -> Option<(AllocId, Size)> {
        let ps = self.tcx.data_layout.pointer_size();
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => {
                let x = m.inner().read_scalar(&self.tcx, alloc_range(off, ps), true).ok()?;
                match x {
                    Scalar::Ptr(p, _) => {
                        let (prov, off) = p.into_raw_parts();
                        Some((prov.alloc_id(), off))
                    }
                    Scalar::Int(_) => None,
                }
            }
            _ => None,
        }
    }
    fn read_usize(&self, a: AllocId, off: Size) -> Option<u64> {
        let ps = self.tcx.data_layout.pointer_size();
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => {
                let x = m.inner().read_scalar(&self.tcx, alloc_range(off, ps), false).ok()?;
                x.to_target_usize(&self.tcx).discard_err()
            }
            _ => None,
        }
    }

    /// The value a pointer of type `ty` (a ref or raw pointer) to `(a, off)` points to.
    fn pointee(&mut self, a: AllocId, off: Size, meta: Option<u64>, inner: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return o! {"bad": s("depth")};
        }
        match tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Static(d)) => {
                let id = self.stat(d);
                o! {"static": J::I(id as i128)}
            }
            Some(GlobalAlloc::Function { instance }) => {
                let i = self.inst(instance);
                o! {"fn": i}
            }
            Some(GlobalAlloc::Memory(m)) => match *inner.kind() {
                ty::Str => {
                    let n = meta.unwrap_or(0);
                    let by = m
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..(off.bytes() + n) as usize);
                    let j = match std::str::from_utf8(by) {
                        Ok(x) => s(x),
                        Err(_) => J::Null,
                    };
                    o! {"ref": o!{"str": j}}
                }
                ty::Slice(el) => {
                    let n = meta.unwrap_or(0);
                    if el == tcx.types.u8 {
                        let by = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            off.bytes() as usize..(off.bytes() + n) as usize,
                        );
                        return o! {"ref": o!{"bytes": J::A(by.iter().map(|b| J::I(*b as i128)).collect())}};
                    }
                    let sz = match tcx.layout_of(self.env.as_query_input(el)) {
                        Ok(l) => l.size,
                        Err(_) => return o! {"bad": s("layout")},
                    };
                    let mut v = Vec::new();
                    for k in 0..n.min(4096) {
                        v.push(self.cval(
                            ConstValue::Indirect { alloc_id: a, offset: off + sz * k },
                            el,
                            depth + 1,
                        ));
                    }
                    o! {"ref": o!{"arr": J::A(v)}}
                }
                ty::Dynamic(..) => o! {"opaque": s(self.ty_str(inner))},
                _ => {
                    let v = self.cval(ConstValue::Indirect { alloc_id: a, offset: off }, inner, depth + 1);
                    o! {"ref": v}
                }
            },
            _ => o! {"opaque": s(self.ty_str(inner))},
        }
    }

    fn cval(&mut self, cv: ConstValue, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return o! {"bad": s("depth")};
        }
        match *ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match cv {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { .. } => self.scalar_at(cv, ty),
                    _ => None,
                };
                match sc.and_then(|x| x.try_to_scalar_int().ok()) {
                    Some(i) => {
                        let b = i.to_bits_unchecked();
                        let x = match *ty.kind() {
                            ty::Int(_) => i.size().sign_extend(b),
                            _ => b as i128,
                        };
                        o! {"int": J::I(x)}
                    }
                    None => o! {"bad": s("scalar")},
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let unsized_ = matches!(inner.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                match cv {
                    ConstValue::Slice { alloc_id, meta } => {
                        self.pointee(alloc_id, Size::ZERO, Some(meta), inner, depth)
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        self.pointee(prov.alloc_id(), off, None, inner, depth)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let meta = if unsized_ {
                            self.read_usize(alloc_id, offset + tcx.data_layout.pointer_size())
                        } else {
                            None
                        };
                        match self.read_ptr(alloc_id, offset) {
                            Some((a, o)) => self.pointee(a, o, meta, inner, depth),
                            None => {
                                if unsized_ && meta == Some(0) {
                                    match *inner.kind() {
                                        ty::Str => return o! {"ref": o!{"str": s("")}},
                                        ty::Slice(_) => return o! {"ref": o!{"arr": J::A(vec![])}},
                                        _ => {}
                                    }
                                }
                                o! {"opaque": s(self.ty_str(ty))}
                            }
                        }
                    }
                    _ => o! {"opaque": s(self.ty_str(ty))},
                }
            }
            ty::FnPtr(..) => {
                let p = match cv {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p.into_raw_parts().0.alloc_id()),
                    ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset).map(|x| x.0),
                    _ => None,
                };
                match p.and_then(|a| tcx.try_get_global_alloc(a)) {
                    Some(GlobalAlloc::Function { instance }) => {
                        let i = self.inst(instance);
                        o! {"fn": i}
                    }
                    _ => o! {"opaque": s("fnptr")},
                }
            }
            ty::FnDef(..) | ty::Closure(..) => {
                let t = self.ty(ty);
                o! {"zst": t}
            }
            ty::Tuple(ts) if ts.is_empty() => o! {"adt": J::I(0), "f": J::A(vec![])},
            ty::Adt(def, _) if def.is_union() => o! {"opaque": s(self.ty_str(ty))},
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(def, _) = ty.kind() {
                    // structured decoding of heap-backed things is pointless
                    let p = self.path(def.did());
                    if p.starts_with("core::cell") || p.starts_with("core::sync") || p.starts_with("core::fmt::Arguments") {
                        return o! {"opaque": s(self.ty_str(ty))};
                    }
                }
                if let ty::Array(_, n) = ty.kind() {
                    if n.try_to_target_usize(tcx).unwrap_or(0) > 4096 {
                        return o! {"opaque": s(self.ty_str(ty))};
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
                    Some(d) => {
                        let f: Vec<J> = d.fields.iter().map(|(c, t)| self.cval(*c, *t, depth + 1)).collect();
                        if matches!(ty.kind(), ty::Array(..)) {
                            o! {"arr": J::A(f)}
                        } else {
                            o! {"adt": J::I(d.variant.map(|v| v.as_u32()).unwrap_or(0) as i128), "f": J::A(f)}
                        }
                    }
                    None => o! {"bad": s(self.ty_str(ty))},
                }
            }
            _ => o! {"opaque": s(self.ty_str(ty))},
        }
    }
    fn scalar_at(&self, cv: ConstValue, ty: Ty<'tcx>) -> Option<Scalar> {
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            let sz = self.tcx.layout_of(self.env.as_query_input(ty)).ok()?.size;
            match self.tcx.try_get_global_alloc(alloc_id)? {
                GlobalAlloc::Memory(m) => m.inner().read_scalar(&self.tcx, alloc_range(offset, sz), false).ok(),
                _ => None,
            }
        } else {
            None
        }
    }

    fn stat(&mut self, d: DefId) -> usize {
        if let Some(i) = self.statics.get(&d) {
            return *i;
        }
        let id = self.static_out.len();
        self.statics.insert(d, id);
        self.static_out.push(J::Null);
        let tcx = self.tcx;
        let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = self.ty(ty);
        // value (only if it can be destructured)
        let v = match tcx.eval_static_initializer(d) {
            Ok(_) => {
                let a = tcx.reserve_and_set_static_alloc(d);
                let _ = a;
                let al = tcx.eval_static_initializer(d).unwrap();
                let aid = tcx.reserve_and_set_memory_alloc(al);
                self.cval(ConstValue::Indirect { alloc_id: aid, offset: Size::ZERO }, ty, 1)
            }
            Err(_) => J::Null,
        };
        self.static_out[id] = o! {"path": s(self.path(d)), "t": t, "v": v};
        id
    }

    fn stmt(&mut self, b: &mir::Body<'tcx>, x: &mir::Statement<'tcx>) -> Option<J> {
        use mir::StatementKind::*;
        match &x.kind {
            Assign(a) => {
                let (p, r) = &**a;
                let p = self.place(b, p);
                let r = self.rvalue(b, r);
                Some(J::A(vec![s("="), p, r]))
            }
            SetDiscriminant { place, variant_index } => {
                let p = self.place(b, place);
                Some(J::A(vec![s("disc"), p, J::I(variant_index.as_u32() as i128)]))
            }
            Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => None,
                mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => Some(J::A(vec![s("copynonoverlapping")])),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(x, ..) => J::A(vec![s("use"), self.operand(b, x)]),
            Repeat(x, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i128).unwrap_or(-1);
                J::A(vec![s("repeat"), self.operand(b, x), J::I(n)])
            }
            Ref(_, k, p) => J::A(vec![s("ref"), self.place(b, p), J::B(k.to_mutbl_lossy().is_mut())]),
            RawPtr(_, p) => J::A(vec![s("ref"), self.place(b, p), J::B(true)]),
            Cast(k, x, t) => {
                let from = x.ty(&b.local_decls, self.tcx);
                let f = self.ty(from);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, x), f, t])
            }
            BinaryOp(op, x) => {
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, &x.0), self.operand(b, &x.1)])
            }
            UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, x)]),
            Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(b, p), t])
            }
            Aggregate(k, fs) => {
                let f = fs.iter().map(|x| self.operand(b, x)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("arr")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
                            .unwrap_or(t);
                        let t = self.ty(t);
                        J::A(vec![s("adt"), t, J::I(v.as_u32() as i128)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, (*d).try_into().unwrap(), args);
                        let t = self.ty(t);
                        J::A(vec![s("closure"), t])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, J::A(f)])
            }
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(b, p)])]),
            ThreadLocalRef(d) => {
                let id = self.stat(*d);
                J::A(vec![s("tls"), J::I(id as i128)])
            }
            Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(b, p)])]),
            WrapUnsafeBinder(x, _) => J::A(vec![s("use"), self.operand(b, x)]),
        }
    }

    fn term(&mut self, b: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let bb = |x: mir::BasicBlock| J::I(x.as_u32() as i128);
        let unw = |x: &mir::UnwindAction| match x {
            mir::UnwindAction::Cleanup(c) => J::I(c.as_u32() as i128),
            _ => J::Null,
        };
        match &t.kind {
            Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            SwitchInt { discr, targets } => {
                let dt = discr.ty(&b.local_decls, self.tcx);
                let signed = match *dt.kind() {
                    ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                    _ => None,
                };
                let d = self.operand(b, discr);
                let v = targets
                    .iter()
                    .map(|(v, t)| {
                        let v = match signed {
                            Some(bits) => Size::from_bits(bits).sign_extend(v),
                            None => v as i128,
                        };
                        J::A(vec![J::I(v), bb(t)])
                    })
                    .collect();
                J::A(vec![s("switch"), d, J::A(v), bb(targets.otherwise())])
            }
            UnwindResume | UnwindTerminate(_) => J::A(vec![s("resume")]),
            Return => J::A(vec![s("return")]),
            Unreachable => J::A(vec![s("unreachable")]),
            Drop { place, target, .. } => {
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let ty = self.ty(ty);
                J::A(vec![s("drop"), self.place(b, place), bb(*target), ty])
            }
            Call { func, args, destination, target, unwind, fn_span, .. } => {
                let fty = func.ty(&b.local_decls, self.tcx);
                let (i, d) = match *fty.kind() {
                    ty::FnDef(d, a) => self.callee(d.into(), a.no_bound_vars().unwrap()),
                    _ => (J::Null, J::Null),
                };
                let f = if matches!(fty.kind(), ty::FnDef(..)) { J::Null } else { self.operand(b, func) };
                let a = args.iter().map(|x| self.operand(b, &x.node)).collect();
                let at = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&b.local_decls, self.tcx);
                        self.ty(t)
                    })
                    .collect();
                let rt = destination.ty(&b.local_decls, self.tcx).ty;
                let rt = self.ty(rt);
                o! {"op": s("call"), "inst": i, "decl": d, "fp": f, "args": J::A(a), "at": J::A(at),
                "dest": self.place(b, destination), "rt": rt, "to": target.map(bb).unwrap_or(J::Null),
                "unw": unw(unwind), "span": self.span(*fn_span)}
            }
            TailCall { .. } => J::A(vec![s("unsupported"), s("tailcall")]),
            Assert { cond, expected, target, msg, .. } => {
                let c = self.operand(b, cond);
                J::A(vec![s("assert"), c, J::B(*expected), bb(*target), s(format!("{:?}", msg)), self.span(t.source_info.span)])
            }
            FalseEdge { real_target, .. } | FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
            _ => J::A(vec![s("unsupported"), s(format!("{:?}", t.kind))]),
        }
    }
}

struct Cb {
    out: String,
    expand: Vec<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(m) = self.expand.iter().find(|x| x.starts_with('@')) {
            let out = if m == "@raw" { raw::run(tcx) } else { cg::Graph::run(tcx, m == "@all") };
            std::fs::write(&self.out, out).unwrap();
            return Compilation::Stop;
        }
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            expand: self.expand.clone(),
            insts: HashMap::new(),
            inst_out: Vec::new(),
            queue: VecDeque::new(),
            types: HashMap::new(),
            type_out: Vec::new(),
            statics: HashMap::new(),
            static_out: Vec::new(),
            poll: None,
            futures: HashSet::new(),
        };
        for t in tcx.all_traits_including_private() {
            if d.path(t) == "futures::future::Future" {
                d.poll = tcx.associated_items(t).in_definition_order()
                    .find(|a| a.name().as_str() == "poll").map(|a| a.def_id);
                for i in tcx.all_impls(t) {
                    if i.krate == LOCAL_CRATE || tcx.crate_name(i.krate).as_str() == "hyperdrive" {
                        if let ty::Adt(a, _) = tcx.type_of(i).skip_binder().kind() {
                            d.futures.insert(a.did());
                        }
                    }
                }
            }
        }
        let mut roots = Vec::new();
        for def in tcx.mir_keys(()) {
            let did = def.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn) {
                continue;
            }
            let n = tcx.item_name(did).to_string();
            if n.starts_with("root_") {
                let i = Instance::mono(tcx, did);
                let j = d.inst(i);
                roots.push(J::A(vec![s(n), j]));
            }
        }
        while let Some(i) = d.queue.pop_front() {
            d.process(i);
        }
        let insts: Vec<J> = d.inst_out.iter().map(|x| x.clone().unwrap_or(J::Null)).collect();
        let j = o! {"roots": J::A(roots), "insts": J::A(insts), "types": J::A(d.type_out.clone()),
        "statics": J::A(d.static_out.clone())};
        let mut out = String::new();
        j.w(&mut out);
        std::fs::write(&self.out, out).unwrap();
        let _ = (FieldIdx::from_u32(0), VariantIdx::from_u32(0));
        Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let mut a: Vec<String> = std::env::args().collect();
    let out = a.remove(1);
    let expand = a.remove(1).split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    rustc_driver::install_ice_hook("", |_| ());
    let mut cb = Cb { out, expand };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut cb))
}
