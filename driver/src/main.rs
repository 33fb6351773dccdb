//! Dumps the typed, resolved MIR (as built, before borrow checking and before
//! any optimisation) of one crate as JSON, for the analyses of /verif/analysis.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `driver <rustc> <args..>`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::*;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    files: Vec<String>,
}

type Env<'tcx> = TypingEnv<'tcx>;

impl<'tcx> Dumper<'tcx> {
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ))
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{t}")))
    }

    fn span(&mut self, sp: Span) -> J {
        let exp: Vec<String> = sp
            .macro_backtrace()
            .map(|e| match e.kind {
                rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                rustc_span::ExpnKind::Desugaring(k) => format!("@{}", k.descr()),
                _ => "?".into(),
            })
            .collect();
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(root.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let id = match self.files.iter().position(|x| *x == f) {
            Some(p) => p,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        let mut v = vec![i(id), i(loc.line), i(loc.col.0 + 1)];
        if !exp.is_empty() {
            v.push(s(exp.join("<")));
        }
        J::A(v)
    }

    fn konst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(l) => i(l.to_bits_unchecked()),
                None => s(format!("{c}")),
            },
            _ => s(ty::print::with_no_trimmed_paths!(format!("{c}"))),
        }
    }

    fn norm(&self, env: Env<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> Option<J> {
        if let Some(t) = a.as_type() {
            return Some(J::O(vec![("t", i(self.ty(t)))]));
        }
        if let Some(c) = a.as_const() {
            return Some(J::O(vec![("c", self.konst(c))]));
        }
        None
    }

    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<_> = a.iter().collect();
        J::A(v.into_iter().filter_map(|x| self.garg(x)).collect())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.type_ids.get(&t) {
            return *x;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let mut o: Vec<(&'static str, J)> = vec![];
        match *t.kind() {
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                let k = self.adt(def);
                o.push(("adt", s(k)));
                let a = self.gargs(args);
                o.push(("args", a));
            }
            TyKind::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", i(self.ty(t))));
            }
            TyKind::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("t", i(self.ty(t))));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| i(self.ty(t))).collect();
                o.push(("ts", J::A(v)));
            }
            TyKind::Array(t, n) => {
                o.push(("k", s("array")));
                o.push(("t", i(self.ty(t))));
                o.push(("n", self.konst(n)));
            }
            TyKind::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", i(self.ty(t))));
            }
            TyKind::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.key(d))));
            }
            TyKind::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("def", s(self.key(d))));
            }
            TyKind::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(d))));
                let a = self.gargs(args.skip_binder());
                o.push(("args", a));
            }
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.as_str())));
            }
            TyKind::Alias(_, a) => {
                o.push(("k", s("alias")));
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                o.push(("def", s(self.path(d))));
                let g = self.gargs(a.args);
                o.push(("args", g));
            }
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                o.push(("k", s("prim")));
            }
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(self.tystr(t))));
        self.types[id] = J::O(o);
        id
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let k = self.path(def.did());
        if self.adts.contains_key(&k) {
            return k;
        }
        self.adts.insert(k.clone(), J::Null);
        let kind = if def.is_struct() {
            "struct"
        } else if def.is_enum() {
            "enum"
        } else {
            "union"
        };
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let ft = if def.did().is_local() { i(self.ty(t)) } else { s(self.tystr(t)) };
                fs.push(J::O(vec![
                    ("n", s(f.name.as_str())),
                    ("t", ft),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![
                ("n", s(v.name.as_str())),
                ("discr", J::I(discr)),
                ("f", J::A(fs)),
            ]));
        }
        let has_drop = def.destructor(self.tcx).is_some();
        let sp = if def.did().is_local() {
            self.span(self.tcx.def_span(def.did()))
        } else {
            J::Null
        };
        self.adts.insert(
            k.clone(),
            J::O(vec![
                ("kind", s(kind)),
                ("local", J::B(def.did().is_local())),
                ("key", s(self.key(def.did()))),
                ("drop", J::B(has_drop)),
                ("span", sp),
                ("variants", J::A(vs)),
            ]),
        );
        k
    }

    /// For each trait predicate of `def` instantiated with `args`: the local
    /// impl it selects, if any.
    fn nested(&mut self, env: Env<'tcx>, def: DefId, args: GenericArgsRef<'tcx>) -> Vec<J> {
        let mut out = vec![];
        let preds = self.tcx.clauses_of(def).instantiate(self.tcx, args);
        for c in preds.clauses {
            let c = c.skip_normalization();
            let Some(tp) = c.as_trait_clause() else { continue };
            let tr = tp.skip_binder().trait_ref;
            let tr = self.tcx.erase_and_anonymize_regions(tr);
            let Ok(tr) = self
                .tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tr))
            else {
                continue;
            };
            use rustc_middle::ty::TypeVisitableExt;
            if tr.has_escaping_bound_vars() || tr.has_infer() {
                continue;
            }
            if let Some(j) = self.select(env, tr, 0) {
                out.push(j);
            }
        }
        out
    }

    fn select(&mut self, env: Env<'tcx>, tr: ty::TraitRef<'tcx>, depth: usize) -> Option<J> {
        let name = self.path(tr.def_id);
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if !matches!(
            short.as_str(),
            "From" | "Into" | "TryFrom" | "TryInto" | "FromIterator" | "Extend" | "IntoIterator"
                | "Deref" | "DerefMut" | "AsRef" | "AsMut" | "Display" | "Default" | "Clone"
                | "Iterator" | "Debug" | "ToString" | "Borrow" | "FromResidual" | "PartialEq" | "Hash"
                | "Future" | "IntoFuture" | "Serializable" | "Drop" | "Zeroize" | "FromStr"
                | "Index" | "IndexMut" | "Add" | "Sum" | "ZeroizeOnDrop" | "FixedSizeCBytes"
        ) {
            return None;
        }
        let src = self.tcx.codegen_select_candidate(env.as_query_input(tr)).ok()?;
        if let rustc_middle::traits::ImplSource::UserDefined(d) = src {
            let impl_did = d.impl_def_id;
            if impl_did.is_local() {
                let methods: Vec<J> = self
                    .tcx
                    .associated_items(impl_did)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| J::A(vec![s(a.name().as_str()), s(self.key(a.def_id))]))
                    .collect();
                let a = self.gargs(tr.args);
                return Some(J::O(vec![
                    ("trait", s(name)),
                    ("args", a),
                    ("impl", s(self.key(impl_did))),
                    ("methods", J::A(methods)),
                ]));
            } else if depth < 3 {
                // A foreign impl (e.g. the blanket Into) may itself select a local one.
                let inner = self.nested_d(env, impl_did, d.args, depth + 1);
                if !inner.is_empty() {
                    let a = self.gargs(tr.args);
                    return Some(J::O(vec![
                        ("trait", s(name)),
                        ("args", a),
                        ("via", s(self.path(impl_did))),
                        ("nested", J::A(inner)),
                    ]));
                }
            }
        }
        None
    }

    fn nested_d(
        &mut self,
        env: Env<'tcx>,
        def: DefId,
        args: GenericArgsRef<'tcx>,
        depth: usize,
    ) -> Vec<J> {
        let mut out = vec![];
        let preds = self.tcx.clauses_of(def).instantiate(self.tcx, args);
        for c in preds.clauses {
            let c = c.skip_normalization();
            let Some(tp) = c.as_trait_clause() else { continue };
            let tr = self.tcx.erase_and_anonymize_regions(tp.skip_binder().trait_ref);
            let Ok(tr) = self
                .tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tr))
            else {
                continue;
            };
            use rustc_middle::ty::TypeVisitableExt;
            if tr.has_escaping_bound_vars() || tr.has_infer() {
                continue;
            }
            if let Some(j) = self.select(env, tr, depth) {
                out.push(j);
            }
        }
        out
    }

    fn fninfo(&mut self, env: Env<'tcx>, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(self.path(def))));
        if def.is_local() {
            o.push(("key", s(self.key(def))));
        }
        match tcx.def_kind(def) {
            DefKind::Ctor(of, _) => {
                let (adt, vname) = match of {
                    CtorOf::Struct => (tcx.parent(def), None),
                    CtorOf::Variant => {
                        let v = tcx.parent(def);
                        (tcx.parent(v), Some(tcx.item_name(v).to_string()))
                    }
                };
                let ad = tcx.adt_def(adt);
                let k = self.adt(ad);
                o.push(("ctor", s(k)));
                o.push(("variant", opt(vname.map(s))));
            }
            _ => {}
        }
        let a = self.gargs(args);
        o.push(("args", a));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(def).as_str())));
            if let Some(st) = args.types().next() {
                let st = self.norm(env, st);
                o.push(("self", i(self.ty(st))));
            }
            let n = tcx.generics_of(tr).count();
            let ta: Vec<_> = args.iter().take(n).collect();
            let ta: Vec<J> = ta.into_iter().filter_map(|x| self.garg(x)).collect();
            o.push(("targs", J::A(ta)));
        } else if let Some(im) = tcx.impl_of_assoc(def) {
            if !tcx.impl_is_of_trait(im) {
                let st = tcx.type_of(im).instantiate(tcx, args).skip_normalization();
                let st = self.norm(env, st);
                o.push(("inherent", i(self.ty(st))));
            }
            o.push(("method", s(tcx.item_name(def).as_str())));
        } else {
            o.push(("method", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())));
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            use rustc_middle::ty::TypeVisitableExt;
            if !eargs.has_escaping_bound_vars() {
                let eargs = tcx
                    .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(eargs))
                    .unwrap_or(eargs);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, eargs) {
                    let rd = inst.def_id();
                    let mut r = vec![("path", s(self.path(rd)))];
                    r.push((
                        "kind",
                        s(match inst.def {
                            ty::InstanceKind::Item(_) => "item",
                            ty::InstanceKind::Virtual(..) => "virtual",
                            ty::InstanceKind::Intrinsic(..) => "intrinsic",
                            _ => "shim",
                        }),
                    ));
                    if rd.is_local() {
                        r.push(("key", s(self.key(rd))));
                        r.push(("args", {
                            let ia = inst.args;
                            self.gargs(ia)
                        }));
                        let derived = match tcx.impl_of_assoc(rd) {
                            Some(im) => tcx.is_automatically_derived(im),
                            None => false,
                        };
                        r.push(("derived", J::B(derived)));
                    }
                    let n = self.nested(env, rd, inst.args);
                    r.push(("nested", J::A(n)));
                    o.push(("res", J::O(r)));
                }
            }
            let eargs = tcx.erase_and_anonymize_regions(args);
            if !eargs.has_escaping_bound_vars() {
                let n = self.nested(env, def, eargs);
                if !n.is_empty() {
                    o.push(("nested", J::A(n)));
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, env: Env<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            let j = match e {
                ProjectionElem::Deref => {
                    let is_box = bt.ty.is_box();
                    if is_box {
                        arr([s("*"), s("box")])
                    } else {
                        arr([s("*")])
                    }
                }
                ProjectionElem::Field(f, _t) => {
                    let t = self.norm(env, bt.ty);
                    let (single, name) = match t.kind() {
                        TyKind::Adt(d, _) => {
                            let v = match bt.variant_index {
                                Some(v) => d.variant(v),
                                None => d.non_enum_variant(),
                            };
                            (
                                d.is_struct() && v.fields.len() == 1,
                                v.fields[f].name.to_string(),
                            )
                        }
                        _ => (false, format!("{}", f.as_usize())),
                    };
                    arr([s("f"), i(f.as_usize()), J::B(single), s(name), i(self.ty(t))])
                }
                ProjectionElem::Index(l) => arr([s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr([s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([s("sub"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let t = self.norm(env, bt.ty);
                    let name = match t.kind() {
                        TyKind::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    arr([s("d"), i(v.as_usize()), s(name)])
                }
                _ => arr([s("cast")]),
            };
            pr.push(j);
        }
        arr([i(p.local.as_usize()), J::A(pr)])
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        let ga = self.tcx.try_get_global_alloc(id)?;
        let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = ga else { return None };
        let a = m.inner();
        if off + len > a.len() {
            return None;
        }
        if !a.provenance().ptrs().is_empty() {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
    }

    fn size_of(&self, env: Env<'tcx>, t: Ty<'tcx>) -> Option<usize> {
        self.tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes() as usize)
    }

    fn constv(&mut self, env: Env<'tcx>, c: &Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let mut o = vec![("k", s("c")), ("ty", i(self.ty(t)))];
        if let TyKind::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.fninfo(env, d, args)));
            return J::O(o);
        }
        match c {
            Const::Ty(_, cc) => {
                if let ty::ConstKind::Param(p) = cc.kind() {
                    o.push(("param", s(p.name.as_str())));
                    return J::O(o);
                }
            }
            Const::Unevaluated(u, _) => {
                o.push(("item", s(self.path(u.def))));
                if u.def.is_local() {
                    o.push(("item_key", s(self.key(u.def))));
                }
                let a = self.gargs(u.args);
                o.push(("item_args", a));
            }
            _ => {}
        }
        use rustc_middle::ty::TypeVisitableExt;
        if let Const::Unevaluated(u, _) = c {
            if u.args.has_param() {
                // too generic; left symbolic
                if let Ok(v) = c.eval(self.tcx, env, sp) {
                    self.cval(env, v, t, &mut o);
                }
                return J::O(o);
            }
        }
        if let Ok(v) = c.eval(self.tcx, env, sp) {
            self.cval(env, v, t, &mut o);
        }
        J::O(o)
    }

    fn cval(&mut self, env: Env<'tcx>, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(sc) => match sc {
                rustc_middle::mir::interpret::Scalar::Int(n) => {
                    let bits = n.to_bits_unchecked();
                    let val: i128 = if t.is_signed() {
                        n.to_int(n.size())
                    } else {
                        bits as i128
                    };
                    o.push(("int", J::I(val)));
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    // A reference to a constant: try to read what it points to.
                    if let TyKind::Ref(_, inner, _) = *t.kind() {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let Some(sz) = self.size_of(env, inner) {
                            if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes() as usize, sz) {
                                let is_bytes = match inner.kind() {
                                    TyKind::Array(e, _) => *e == self.tcx.types.u8,
                                    _ => false,
                                };
                                if is_bytes {
                                    o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                                } else {
                                    o.push(("refbytes", J::A(b.iter().map(|x| i(*x)).collect())));
                                }
                            } else {
                                // &[&str]-like or pointing to a reference to bytes
                                self.deep(prov.alloc_id(), off.bytes() as usize, inner, o);
                            }
                        }
                    }
                }
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                    o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(sz) = self.size_of(env, t) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes() as usize, sz) {
                        o.push(("raw", J::A(b.iter().map(|x| i(*x)).collect())));
                    } else {
                        self.deep(alloc_id, offset.bytes() as usize, t, o);
                    }
                }
            }
        }
    }

    /// Reads strings out of arrays of `&str` / fat references (format pieces).
    fn deep(
        &mut self,
        id: rustc_middle::mir::interpret::AllocId,
        off: usize,
        t: Ty<'tcx>,
        o: &mut Vec<(&'static str, J)>,
    ) {
        let Some(ga) = self.tcx.try_get_global_alloc(id) else { return };
        let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = ga else { return };
        let a = m.inner();
        let mut strs = vec![];
        let Some(sz) = self
            .tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
            .ok()
            .map(|l| l.size.bytes() as usize)
        else {
            return;
        };
        for (po, prov) in a.provenance().ptrs().iter() {
            let po = po.bytes() as usize;
            if po < off || po + 16 > off + sz || po + 16 > a.len() {
                continue;
            }
            let lenb = a.inspect_with_uninit_and_ptr_outside_interpreter(po + 8..po + 16);
            let addend = a.inspect_with_uninit_and_ptr_outside_interpreter(po..po + 8);
            let n = u64::from_le_bytes(lenb.try_into().unwrap()) as usize;
            let ad = u64::from_le_bytes(addend.try_into().unwrap()) as usize;
            if n > 1 << 20 {
                continue;
            }
            if let Some(b) = self.alloc_bytes(prov.alloc_id(), ad, n) {
                strs.push(J::A(b.iter().map(|x| i(*x)).collect()));
            }
        }
        o.push(("strs", J::A(strs)));
    }

    fn operand(&mut self, body: &Body<'tcx>, env: Env<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => arr([s("cp"), self.place(body, env, p)]),
            Operand::Move(p) => arr([s("mv"), self.place(body, env, p)]),
            Operand::Constant(c) => arr([s("c"), self.constv(env, &c.const_, c.span)]),
            _ => arr([s("rt")]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: Env<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => arr([s("use"), self.operand(body, env, op)]),
            Rvalue::Repeat(op, n) => {
                let n = self.konst(*n);
                arr([s("rep"), self.operand(body, env, op), n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "sh",
                    BorrowKind::Fake(_) => "fake",
                };
                arr([s("ref"), s(m), self.place(body, env, p)])
            }
            Rvalue::RawPtr(_, p) => arr([s("ref"), s("raw"), self.place(body, env, p)]),
            Rvalue::Cast(k, op, t) => {
                let kk = match k {
                    CastKind::IntToInt => "int",
                    CastKind::FloatToInt => "f2i",
                    CastKind::IntToFloat => "i2f",
                    CastKind::FloatToFloat => "f2f",
                    CastKind::PointerCoercion(..) => "coerce",
                    CastKind::PtrToPtr => "ptr",
                    CastKind::Transmute => "transmute",
                    _ => "other",
                };
                let from = op.ty(&body.local_decls, self.tcx);
                let (f, t) = (i(self.ty(from)), i(self.ty(*t)));
                arr([s("cast"), s(kk), self.operand(body, env, op), f, t])
            }
            Rvalue::BinaryOp(b, ops) => arr([
                s("bin"),
                s(format!("{b:?}")),
                self.operand(body, env, &ops.0),
                self.operand(body, env, &ops.1),
            ]),
            Rvalue::UnaryOp(u, op) => {
                arr([s("un"), s(format!("{u:?}")), self.operand(body, env, op)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.norm(env, t);
                let ti = self.ty(t);
                arr([s("discr"), self.place(body, env, p), i(ti)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => arr([s("array")]),
                    AggregateKind::Tuple => arr([s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let name = self.adt(def);
                        let vn = def.variant(*v).name.to_string();
                        let a = self.gargs(args);
                        arr([s("adt"), s(name), s(vn), i(v.as_usize()), a])
                    }
                    AggregateKind::Closure(d, _) => arr([s("closure"), s(self.key(*d))]),
                    AggregateKind::Coroutine(d, _) => arr([s("coroutine"), s(self.key(*d))]),
                    AggregateKind::CoroutineClosure(d, _) => arr([s("closure"), s(self.key(*d))]),
                    AggregateKind::RawPtr(..) => arr([s("rawptr")]),
                };
                let v: Vec<J> = ops.iter().map(|op| self.operand(body, env, op)).collect();
                arr([s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                arr([s("use"), arr([s("cp"), self.place(body, env, p)])])
            }
            Rvalue::Reborrow(_, _, p) => {
                arr([s("use"), arr([s("cp"), self.place(body, env, p)])])
            }
            _ => arr([s("other")]),
        }
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    dbg.push(arr([s(v.name.as_str()), self.place(body, env, p)]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.norm(env, d.ty);
            let mut o = vec![("t", i(self.ty(t)))];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("n", s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &data.statements {
                let sp = st.source_info.span;
                let j = match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        Some(arr([
                            s("="),
                            self.place(body, env, p),
                            self.rvalue(body, env, r),
                            self.span(sp),
                        ]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(arr([
                        s("sd"),
                        self.place(body, env, place),
                        i(variant_index.as_usize()),
                    ])),
                    StatementKind::StorageDead(l) => Some(arr([s("dead"), i(l.as_usize())])),
                    StatementKind::StorageLive(l) => Some(arr([s("live"), i(l.as_usize())])),
                    _ => None,
                };
                if let Some(j) = j {
                    sts.push(j);
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", i(target.as_usize()))])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| arr([J::I(v as i128), i(b.as_usize())]))
                        .collect();
                    J::O(vec![
                        ("k", s("switch")),
                        ("op", self.operand(body, env, discr)),
                        ("ty", i(self.ty(dt))),
                        ("v", J::A(v)),
                        ("o", i(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::O(vec![("k", s("unwind"))])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.norm(env, t);
                    J::O(vec![
                        ("k", s("drop")),
                        ("p", self.place(body, env, place)),
                        ("ty", i(self.ty(t))),
                        ("t", i(target.as_usize())),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.norm(env, dt);
                    let dti = self.ty(dt);
                    let f = self.operand(body, env, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            let t = self.norm(env, t);
                            i(self.ty(t))
                        })
                        .collect();
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", self.place(body, env, destination)),
                        ("dt", i(dti)),
                        ("t", opt(target.map(|t| i(t.as_usize())))),
                        ("src", s(format!("{call_source:?}"))),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => arr([
                            s("bounds"),
                            self.operand(body, env, len),
                            self.operand(body, env, index),
                        ]),
                        AssertKind::Overflow(b, x, y) => arr([
                            s("overflow"),
                            s(format!("{b:?}")),
                            self.operand(body, env, x),
                            self.operand(body, env, y),
                        ]),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => {
                            arr([s("div0")])
                        }
                        _ => arr([s("other")]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", self.operand(body, env, cond)),
                        ("e", J::B(*expected)),
                        ("m", m),
                        ("t", i(target.as_usize())),
                    ])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => J::O(vec![
                    ("k", s("yield")),
                    ("t", i(resume.as_usize())),
                    ("ra", self.place(body, env, resume_arg)),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", i(real_target.as_usize()))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", i(real_target.as_usize()))])
                }
                _ => J::O(vec![("k", s("other"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(sts)),
                ("t", t),
                ("sp", sp),
                ("cleanup", J::B(data.is_cleanup)),
            ]));
        }
        let kind = match tcx.def_kind(def) {
            DefKind::Closure => {
                if tcx.is_coroutine(def) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
            _ => "other",
        };
        let mut o = vec![
            ("key", s(self.key(def))),
            ("path", s(self.path(def))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(def))),
            ("args", i(body.arg_count)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
            ("coroutine", J::B(body.coroutine.is_some())),
        ];
        let parent = tcx.typeck_root_def_id(def);
        o.push(("root", s(self.key(parent))));
        let ident = ty::GenericArgs::identity_for_item(tcx, parent);
        let ident = self.gargs(ident);
        o.push(("generics", ident));
        if let Some(p) = tcx.opt_parent(def) {
            o.push(("parent", s(self.key(p))));
        }
        if matches!(kind, "fn" | "assoc") {
            o.push(("pub", J::B(tcx.visibility(def).is_public())));
        }
        if kind == "assoc" {
            if let Some(im) = tcx.impl_of_assoc(parent) {
                o.push(("impl", s(self.key(im))));
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                o.push(("self", i(self.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_normalization();
                    o.push(("trait", s(self.path(tr.def_id))));
                    let a = self.gargs(tr.args);
                    o.push(("targs", a));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(parent) {
                o.push(("trait_default", s(self.path(tr))));
            }
        }
        if let Some(n) = tcx.opt_item_name(def) {
            o.push(("name", s(n.as_str())));
        }
        J::O(o)
    }
}

struct Cb {
    out: String,
    state: Option<(String, String)>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut owners: Vec<_> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
        // Clone everything first: later queries may steal the built MIR.
        let mut bodies = vec![];
        let mut skipped = vec![];
        // functions first, then constants (their evaluation steals)
        for pass in 0..2 {
            for d in &owners {
                let is_const = !matches!(
                    tcx.def_kind(d.to_def_id()),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                );
                if is_const != (pass == 1) {
                    continue;
                }
                let st = tcx.mir_built(*d);
                if st.is_stolen() {
                    skipped.push((*d, is_const));
                } else {
                    bodies.push((*d, st.borrow().clone()));
                }
            }
        }
        let mut d = Dumper {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: BTreeMap::new(),
            files: vec![],
        };
        let mut js = vec![];
        for (def, b) in &bodies {
            js.push(d.body(def.to_def_id(), b));
        }
        // impls
        let mut impls = vec![];
        let mut ids: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
        ids.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
        for ld in ids {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let mut o = vec![
                        ("key", s(d.key(did))),
                        ("self", i(d.ty(st))),
                        ("span", d.span(tcx.def_span(did))),
                        ("derived", J::B(tcx.is_automatically_derived(did))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_normalization();
                        o.push(("trait", s(d.path(tr.def_id))));
                        let a = d.gargs(tr.args);
                        o.push(("targs", a));
                    }
                    let ms: Vec<J> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|a| {
                            let n = a.opt_name().map(|n| n.to_string()).unwrap_or_default();
                            let mut v = vec![s(n), s(d.key(a.def_id)), J::B(a.is_fn())];
                            if a.is_type() {
                                let t = tcx.type_of(a.def_id).instantiate_identity().skip_normalization();
                                v.push(i(d.ty(t)));
                            }
                            J::A(v)
                        })
                        .collect();
                    o.push(("items", J::A(ms)));
                    impls.push(J::O(o));
                }
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(did);
                    d.adt(a);
                }
                _ => {}
            }
        }
        // values of the non-generic constants
        let mut consts = vec![];
        for od in &owners {
            let did = od.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let g = tcx.generics_of(did);
                let mut o = vec![("key", s(d.key(did))), ("path", s(d.path(did))), ("span", d.span(tcx.def_span(did)))];
                if g.count() == 0 {
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let env = TypingEnv::fully_monomorphized();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        d.cval(env, v, t, &mut o);
                    }
                }
                consts.push(J::O(o));
            }
        }
        let head = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("skipped", J::A(skipped.iter().map(|(x, _)| s(d.key(x.to_def_id()))).collect())),
            ("bodies", J::A(js)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("types", J::A(std::mem::take(&mut d.types))),
            ("adts", J::M(std::mem::take(&mut d.adts).into_iter().collect())),
            ("files", J::A(d.files.iter().map(|f| s(f.clone())).collect())),
        ]);
        let mut txt = String::new();
        head.write(&mut txt);
        self.state = Some((txt, String::new()));
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dumper {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: BTreeMap::new(),
            files: vec![],
        };
        let mut wit = vec![];
        let mut owners: Vec<_> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
        for o in owners {
            let did = o.to_def_id();
            if tcx.def_kind(did) == DefKind::Closure && tcx.is_coroutine(did) {
                let mut ts = vec![];
                if let Some(w) = tcx.mir_coroutine_witnesses(did) {
                    for f in w.field_tys.iter() {
                        let sp = d.span(f.source_info.span);
                        ts.push(arr([s(d.tystr(f.ty)), sp, J::B(f.ignore_for_traits)]));
                    }
                }
                wit.push(J::O(vec![("key", s(d.key(did))), ("saved", J::A(ts))]));
            }
        }
        let j = J::O(vec![
            ("witnesses", J::A(wit)),
            ("files", J::A(d.files.iter().map(|f| s(f.clone())).collect())),
        ]);
        let mut txt = String::new();
        j.write(&mut txt);
        if let Some((a, _)) = &self.state {
            let full = format!("{{\"main\":{a},\"post\":{txt}}}");
            let tmp = format!("{}.tmp{}", self.out, std::process::id());
            std::fs::write(&tmp, full).expect("cannot write the MIR dump");
            std::fs::rename(&tmp, &self.out).expect("cannot rename the MIR dump");
        }
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if krate == want && !out.is_empty() && !is_test {
        let mut cb = Cb { out, state: None };
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
