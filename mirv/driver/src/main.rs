//! mirdump: a rustc driver that prints, as JSON, the MIR the compiler generates for the
//! "root" functions of the crate being compiled and for everything they reach.
//!
//! Every body is printed after the compiler's own type checking, borrow checking, drop
//! elaboration and (for std) std's own MIR pipeline; generic arguments are substituted and
//! trait calls resolved by the compiler, under the root function's where-clauses. Calls that
//! the compiler cannot resolve (they go through a trait of an unknown type) stay symbolic.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON

enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl std::fmt::Display) -> J {
    J::N(x.to_string())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.to_string()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

// ------------------------------------------------------------------ dumping

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    body_ids: HashMap<BodyKey<'tcx>, usize>,
    queue: VecDeque<(usize, BodyKey<'tcx>)>,
    stop: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum BodyKey<'tcx> {
    Fn(Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted),
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    /// A path that does not depend on re-exports: crate::module::Type::method, with
    /// `<impl Trait for Type>` parts printed by name.
    fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        // Inside an impl: <Trait for Type>::name
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let name = tcx.item_name(d);
            let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty_head(self_ty);
            return match tcx.impl_opt_trait_ref(imp) {
                Some(t) => {
                    let t = t.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>::{}", st, self.canon(t.def_id), name)
                }
                None => format!("{}::{}", st, name),
            };
        }
        let mut out = krate;
        for e in tcx.def_path(d).data {
            let _ = write!(out, "::{}", e.data);
        }
        out
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.canon(d.did()),
            ty::Ref(_, t, m) => format!("&{}{}", m.prefix_str(), self.ty_head(*t)),
            ty::RawPtr(t, m) => format!("*{} {}", m.ptr_str(), self.ty_head(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_head(*t)),
            ty::Array(t, _) => format!("[{}; _]", self.ty_head(*t)),
            ty::Param(_) => "_".to_string(),
            _ => format!("{}", t),
        }
    }

    fn layout(&self, t: Ty<'tcx>) -> Option<(u64, u64, Vec<u64>)> {
        use rustc_abi::FieldsShape;
        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        if l.is_unsized() {
            return None;
        }
        let offs = match &l.fields {
            FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(),
            _ => vec![],
        };
        Some((l.size.bytes(), l.align.abi.bytes(), offs))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("str", s(format!("{}", t)))];
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("w", n(i.bit_width().unwrap_or(64))));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("w", n(i.bit_width().unwrap_or(64))));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Alias(_, a) => {
                o.push(("k", s("alias")));
                let d: Option<DefId> = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()),
                    _ => None,
                };
                o.push(("path", s(d.map(|d| self.canon(d)).unwrap_or_default())));
                let a2 = self.args(a.args);
                o.push(("args", a2));
            }
            ty::Ref(_, p, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let p = self.ty(p);
                o.push(("to", n(p)));
            }
            ty::RawPtr(p, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let p = self.ty(p);
                o.push(("to", n(p)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("elem", n(e)));
            }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("elem", n(e)));
                let l = self.tyconst(c);
                o.push(("len", l));
            }
            ty::Pat(b, _) => {
                o.push(("k", s("pat")));
                let b = self.ty(b);
                o.push(("base", n(b)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("fields", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let c = self.callee(d, args);
                o.push(("callee", c));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.canon(d))));
                let v = args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("fields", J::A(v)));
                let inst = Instance::new_raw(d, args);
                let b = self.body(BodyKey::Fn(inst));
                o.push(("body", b));
                o.push(("kind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.canon(def.did()))));
                let a = self.args(args);
                o.push(("args", a));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("transparent", J::B(def.repr().transparent())));
                o.push(("packed", J::B(def.repr().packed())));
                o.push(("manually_drop", J::B(def.is_manually_drop())));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or_else(|_| ft.skip_norm_wip());
                        let fid = self.ty(ft);
                        fs.push(J::A(vec![s(f.name.to_string()), n(fid)]));
                    }
                    let discr = if def.is_enum() {
                        format!("{}", def.discriminant_for_variant(tcx, vi).val)
                    } else {
                        "0".into()
                    };
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", n(discr)),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let c = self.callee(d.did, args);
                    o.push(("drop", c));
                }
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        if let Some((sz, al, offs)) = self.layout(t) {
            o.push(("size", n(sz)));
            o.push(("align", n(al)));
            o.push(("offs", J::A(offs.into_iter().map(n).collect())));
        }
        o.push(("needs_drop", J::B(t.needs_drop(tcx, self.env))));
        self.types[id] = J::O(o);
        id
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                let c = self.tyconst(c);
                v.push(J::O(vec![("const", c)]));
            }
        }
        J::A(v)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        let c = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c)).unwrap_or(c);
        if let Some(x) = c.try_to_target_usize(self.tcx) {
            return n(x);
        }
        s(format!("{}", c))
    }

    fn is_stop(&self, canon: &str) -> bool {
        self.stop.iter().any(|p| {
            if let Some(p) = p.strip_prefix('~') {
                canon.contains(p)
            } else if let Some(p) = p.strip_suffix('*') {
                canon.starts_with(p)
            } else {
                canon == p
            }
        })
    }

    fn body(&mut self, key: BodyKey<'tcx>) -> J {
        if let Some(&i) = self.body_ids.get(&key) {
            return n(i);
        }
        let id = self.body_ids.len();
        self.body_ids.insert(key, id);
        self.queue.push_back((id, key));
        n(id)
    }

    /// The method d of Zip's least specialized ZipImpl<A, B> implementation: args are [Zip<A, B>, A, B].
    fn general_impl(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        let imp = tcx.all_impls(tr).filter(|i| tcx.generics_of(*i).count() == 2).min_by_key(|i| tcx.param_env(*i).caller_bounds().count())?;
        let item = tcx.associated_items(imp).in_definition_order().find(|x| x.trait_item_def_id() == Some(d))?;
        let a = tcx.mk_args(&args[1..3]);
        Some(Instance::new_raw(item.def_id, a))
    }

    fn is_provided(&self, d: DefId, path: &str) -> bool {
        let tcx = self.tcx;
        path.starts_with("core::") && path != "core::iter::traits::iterator::Iterator::size_hint" && tcx.trait_of_assoc(d).is_some()
            && tcx.defaultness(d).has_value() && tcx.is_mir_available(d)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        let mut o = vec![("path", s(self.canon(d)))];
        let a = self.args(args);
        o.push(("args", a));
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                o.push(("kind", s("ctor")));
                return J::O(o);
            }
            _ => {}
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let rp = self.canon(inst.def_id());
                o.push(("rpath", s(rp.clone())));
                let ra = self.args(inst.args);
                o.push(("rargs", ra));
                o.push(("local", J::B(!matches!(tcx.crate_name(inst.def_id().krate).as_str(), "core" | "alloc" | "std"))));
                match inst.def {
                    InstanceKind::Intrinsic(_) => {
                        o.push(("kind", s("intrinsic")));
                        o.push(("name", s(tcx.item_name(inst.def_id()).to_string())));
                    }
                    InstanceKind::Item(did) => {
                        o.push(("kind", s("item")));
                        if tcx.is_mir_available(did) && !self.is_stop(&rp) {
                            let b = self.body(BodyKey::Fn(inst));
                            o.push(("body", b));
                        }
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    InstanceKind::Shim(sh) => {
                        let nm = format!("{:?}", sh);
                        o.push(("shim", s(nm.clone())));
                        if nm.starts_with("DropGlue") {
                            o.push(("kind", s("dropglue")));
                        } else if nm.starts_with("ClosureOnce") || nm.starts_with("FnPtr") || nm.starts_with("Reify") {
                            o.push(("kind", s("item")));
                            let b = self.body(BodyKey::Fn(inst));
                            o.push(("body", b));
                        } else {
                            o.push(("kind", s("shim")));
                        }
                    }
                    _ => o.push(("kind", s("otherinst"))),
                }
            }
            Ok(None) => {
                // Zip is specialized: where the choice depends on an unknown type, its general
                // implementation is used (the specialized one must behave the same).
                let path = self.canon(d);
                if let Some(inst) = path.strip_prefix("core::iter::adapters::zip::ZipImpl::").and_then(|_| self.general_impl(d, args)) {
                    o.push(("kind", s("item")));
                    o.push(("rpath", s(self.canon(inst.def_id()))));
                    let ra = self.args(inst.args);
                    o.push(("rargs", ra));
                    if tcx.is_mir_available(inst.def_id()) {
                        let b = self.body(BodyKey::Fn(inst));
                        o.push(("body", b));
                    }
                } else if self.is_provided(d, &path) {
                    // A provided method of a core trait (Iterator::for_each, ...) does what its
                    // default body does.
                    let inst = Instance::new_raw(d, args);
                    o.push(("kind", s("item")));
                    o.push(("rpath", s(path)));
                    let ra = self.args(args);
                    o.push(("rargs", ra));
                    let b = self.body(BodyKey::Fn(inst));
                    o.push(("body", b));
                } else {
                    o.push(("kind", s("trait")))
                }
            }
            Err(_) => o.push(("kind", s("error"))),
        }
        J::O(o)
    }

    // -------------------------------------------------------------- MIR pieces

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => J::A(vec![s("deref")]),
                Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("field"), n(f.as_usize()), n(t)])
                }
                Index(l) => J::A(vec![s("index"), n(l.as_usize())]),
                ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cindex"), n(offset), n(min_length), J::B(from_end)])
                }
                Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), n(from), n(to), J::B(from_end)])
                }
                Downcast(_, v) => J::A(vec![s("downcast"), n(v.as_usize())]),
                OpaqueCast(t) => {
                    let t = self.ty(t);
                    J::A(vec![s("opaquecast"), n(t)])
                }
                _ => J::A(vec![s("unsupported")]),
            });
        }
        J::A(v)
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = vec![("op", s("const")), ("ty", n(tid))];
        if let mir::Const::Ty(_, ct) = c.const_ {
            let j = self.tyconst(ct);
            if let J::N(_) = j {
                o.push(("val", j));
            } else {
                o.push(("param", j));
            }
            return J::O(o);
        }
        // A function item or a zero-sized value needs nothing else.
        if t.is_fn() && matches!(t.kind(), ty::FnDef(..)) {
            o.push(("zst", J::B(true)));
            return J::O(o);
        }
        let is_unev = matches!(c.const_, mir::Const::Unevaluated(..));
        let generic = match c.const_ {
            mir::Const::Unevaluated(uv, _) => {
                use rustc_middle::ty::TypeVisitableExt;
                uv.args.has_param() || uv.args.has_aliases()
            }
            _ => false,
        };
        let promoted = matches!(c.const_, mir::Const::Unevaluated(uv, _) if uv.promoted.is_some());
        if !(is_unev && (generic || promoted)) {
            if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                if let Some(j) = self.const_value(v, t) {
                    o.extend(j);
                    return J::O(o);
                }
            }
        }
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            let args = self.tcx.erase_and_anonymize_regions(uv.args);
            if let Some(p) = uv.promoted {
                let b = self.body(BodyKey::Promoted(uv.def, args, p));
                o.push(("cbody", b));
                return J::O(o);
            }
            match Instance::try_resolve(self.tcx, self.env, uv.def, args) {
                Ok(Some(inst)) if matches!(inst.def, InstanceKind::Item(_)) => {
                    o.push(("cpath", s(self.canon(inst.def_id()))));
                    if let Some((v, _)) = self.tcx.trivial_const(inst.def_id()) {
                        if let Some(j) = self.const_value(v, t) {
                            o.extend(j);
                            return J::O(o);
                        }
                    }
                    if !self.tcx.is_mir_available(inst.def_id()) && inst.def_id().krate != rustc_hir::def_id::LOCAL_CRATE && !matches!(self.tcx.def_kind(inst.def_id()), DefKind::AssocConst{..}|DefKind::Const{..}) {
                        o.push(("opaque", s(self.canon(inst.def_id()))));
                        let a = self.args(inst.args);
                        o.push(("cargs", a));
                        return J::O(o);
                    }
                    let b = self.body(BodyKey::Const(inst.def_id(), inst.args));
                    o.push(("cbody", b));
                    let a = self.args(inst.args);
                    o.push(("cargs", a));
                }
                _ => {
                    o.push(("assoc", s(self.canon(uv.def))));
                    let a = self.args(args);
                    o.push(("cargs", a));
                }
            }
            return J::O(o);
        }
        o.push(("opaque", s(format!("{:?}", c.const_))));
        J::O(o)
    }

    fn const_value(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<Vec<(&'static str, J)>> {
        use mir::interpret::Scalar;
        let compound = matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..));
        if let mir::ConstValue::ZeroSized = v {
            return Some(vec![("zst", J::B(true))]);
        }
        if compound {
            if let ty::Adt(d, _) = t.kind() {
                if d.is_union() {
                    return None;
                }
            }
            let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let mut fs = vec![];
            for (fv, ft) in d.fields.iter() {
                let mut o = vec![("op", s("const")), ("ty", n(self.ty(*ft)))];
                o.extend(self.const_value(*fv, *ft)?);
                fs.push(J::O(o));
            }
            return Some(vec![
                ("variant", n(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
                ("agg", J::A(fs)),
            ]);
        }
        match v {
            mir::ConstValue::Scalar(Scalar::Int(i)) => Some(vec![("val", n(i.to_bits_unchecked()))]),
            mir::ConstValue::Slice { meta, .. } => Some(vec![("slice", n(meta))]),
            _ => None,
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("op", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("op", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => {
                J::O(vec![("op", s("rtcheck")), ("name", s(format!("{:?}", r)))])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => {
                let op = self.operand(op);
                J::O(vec![("r", s("use")), ("a", op)])
            }
            Rvalue::Repeat(op, c) => {
                let op = self.operand(op);
                let c = self.tyconst(*c);
                J::O(vec![("r", s("repeat")), ("a", op), ("n", c)])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p);
                J::O(vec![("r", s("ref")), ("bk", s(format!("{:?}", bk))), ("p", p)])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                J::O(vec![("r", s("rawptr")), ("p", p)])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p);
                J::O(vec![("r", s("reborrow")), ("p", p)])
            }
            Rvalue::Cast(k, op, t) => {
                let op = self.operand(op);
                let t = self.ty(*t);
                J::O(vec![("r", s("cast")), ("ck", s(format!("{:?}", k))), ("a", op), ("ty", n(t))])
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                J::O(vec![("r", s("bin")), ("o", s(format!("{:?}", b))), ("a", x), ("b", y)])
            }
            Rvalue::UnaryOp(u, op) => {
                let x = self.operand(op);
                J::O(vec![("r", s("un")), ("o", s(format!("{:?}", u))), ("a", x)])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                J::O(vec![("r", s("discr")), ("p", p)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::O(vec![("r", s("use")), ("a", J::O(vec![("op", s("copy")), ("p", p)]))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for op in ops.iter() {
                    v.push(self.operand(op));
                }
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        let t = self.ty(*t);
                        o.push(("elem", n(t)));
                    }
                    mir::AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    mir::AggregateKind::Adt(_, v, _, _, f) => {
                        o.push(("ak", s("adt")));
                        o.push(("variant", n(v.as_usize())));
                        if let Some(f) = f {
                            o.push(("ufield", n(f.as_usize())));
                        }
                    }
                    mir::AggregateKind::Closure(..) => o.push(("ak", s("closure"))),
                    mir::AggregateKind::RawPtr(..) => o.push(("ak", s("rawptr"))),
                    _ => o.push(("ak", s("unsupported"))),
                }
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            _ => J::O(vec![("r", s("unsupported")), ("dbg", s(format!("{:?}", r)))]),
        }
    }

    fn unwind(u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Continue => s("continue"),
            mir::UnwindAction::Unreachable => s("unreachable"),
            mir::UnwindAction::Terminate(_) => s("terminate"),
            mir::UnwindAction::Cleanup(b) => n(b.as_usize()),
        }
    }

    fn dump_body(&mut self, id: usize, key: BodyKey<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let (body, name, kind, args): (mir::Body<'tcx>, String, &str, J) = match key {
            BodyKey::Fn(inst) => {
                let b = tcx.instance_mir(inst.def);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                let a = self.args(inst.args);
                (b, self.canon(inst.def_id()), "fn", a)
            }
            BodyKey::Const(d, args) => {
                let b = tcx.mir_for_ctfe(d);
                let b = tcx.instantiate_and_normalize_erasing_regions(
                    args,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                let a = self.args(args);
                (b, self.canon(d), "const", a)
            }
            BodyKey::Promoted(d, args, p) => {
                let b = &tcx.promoted_mir(d)[p];
                let b = tcx.instantiate_and_normalize_erasing_regions(
                    args,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                let a = self.args(args);
                (b, format!("{}::promoted[{}]", self.canon(d), p.as_usize()), "promoted", a)
            }
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1);
                        st.push(J::A(vec![s("="), p, r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op);
                            st.push(J::A(vec![s("assume"), op]));
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src);
                            let b = self.operand(&c.dst);
                            let d = self.operand(&c.count);
                            st.push(J::A(vec![s("cpy"), a, b, d]));
                        }
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let span = tcx.sess.source_map().span_to_diagnostic_string(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    let d = self.operand(discr);
                    o.push(("d", d));
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    o.push(("dty", n(dt)));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![n(v), n(b.as_usize())]))
                        .collect();
                    o.push(("cases", J::A(v)));
                    o.push(("otherwise", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::UnwindResume => o.push(("t", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("t", s("abort"))),
                TerminatorKind::Return => o.push(("t", s("return"))),
                TerminatorKind::Unreachable => o.push(("t", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("t", s("drop")));
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    o.push(("p", p));
                    o.push(("ty", n(pt)));
                    o.push(("to", n(target.as_usize())));
                    o.push(("unwind", Self::unwind(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("t", s("call")));
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => {
                            let f = self.operand(func);
                            J::O(vec![("kind", s("indirect")), ("path", s("<indirect>")), ("f", f)])
                        }
                    };
                    o.push(("f", f));
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.operand(&a.node));
                    }
                    o.push(("args", J::A(v)));
                    let d = self.place(destination);
                    o.push(("dest", d));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    o.push(("dty", n(dt)));
                    o.push(("to", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)));
                    o.push(("unwind", Self::unwind(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("t", s("assert")));
                    let c = self.operand(cond);
                    o.push(("c", c));
                    o.push(("expected", J::B(*expected)));
                    let m = format!("{:?}", msg);
                    o.push(("msg", s(m)));
                    o.push(("to", n(target.as_usize())));
                    o.push(("unwind", Self::unwind(unwind)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", n(real_target.as_usize())));
                }
                other => {
                    o.push(("t", s("unsupported")));
                    o.push(("dbg", s(format!("{:?}", other))));
                }
            }
            o.push(("span", s(span)));
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        Some(J::O(vec![
            ("id", n(id)),
            ("name", s(name)),
            ("kind", s(kind)),
            ("gargs", args),
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("blocks", J::A(blocks)),
        ]))
    }
}

struct Cb {
    out: String,
    stop: Vec<String>,
    only: Option<HashSet<String>>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut out = String::from("{\"roots\":[\n");
        let mut first = true;
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if tcx.def_kind(did) != DefKind::Fn {
                continue;
            }
            let name = tcx.item_name(did).to_string();
            let Some(short) = name.strip_prefix("root_") else { continue };
            if let Some(only) = &self.only {
                if !only.contains(short) {
                    continue;
                }
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let mut du = Dumper {
                tcx,
                env,
                types: vec![],
                type_ids: HashMap::new(),
                body_ids: HashMap::new(),
                queue: VecDeque::new(),
                stop: self.stop.clone(),
            };
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let _ = du.body(BodyKey::Fn(inst));
            let mut bodies: Vec<J> = vec![];
            while let Some((id, key)) = du.queue.pop_front() {
                if let Some(b) = du.dump_body(id, key) {
                    bodies.push(b);
                }
            }
            let preds: Vec<J> = env.param_env.caller_bounds().map(|p| s(format!("{:?}", p))).collect();
            let j = J::O(vec![
                ("name", s(short)),
                ("preds", J::A(preds)),
                ("bodies", J::A(bodies)),
                ("types", J::A(std::mem::take(&mut du.types))),
            ]);
            if !first {
                out.push_str(",\n");
            }
            first = false;
            j.write(&mut out);
        }
        out.push_str("\n]}\n");
        std::fs::write(&self.out, out).expect("cannot write the MIR dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // Used as RUSTC_WRAPPER-like program: mirdump <rustc> args...; dumps only the crate
    // named in MIRDUMP_CRATE and behaves like rustc for every other crate.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if is_target {
        let stop = std::env::var("MIRDUMP_STOP")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect();
        let only = std::env::var("MIRDUMP_ONLY").ok().filter(|x| !x.is_empty()).map(|x| x.split(',').map(|y| y.to_string()).collect());
        let mut cb = Cb { out: std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"), stop, only };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
