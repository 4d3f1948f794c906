//! mirserve: a rustc driver which type-checks one crate and then answers queries about it on
//! stdin/stdout (one JSON document per line). It never generates or runs code of that crate.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::HashMap;
use std::io::{BufRead, Write};

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } o.push('"'); o.push_str(k); o.push_str("\":"); x.w(o); }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }

// ---------------------------------------------------------------- server
struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Ty<'tcx>>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    // an instance is always seen in the environment of one root
    insts: Vec<(DefId, I2<'tcx>)>,
    inst_ids: HashMap<(DefId, I2<'tcx>), usize>,
    roots: Vec<DefId>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum I2<'tcx> {
    Inst(Instance<'tcx>),
    // a trait method (or constant) on a type that only the caller of the root knows
    Unresolved(DefId, GenericArgsRef<'tcx>),
    // body of a constant
    Const(DefId, GenericArgsRef<'tcx>),
    Promoted(Instance<'tcx>, usize),
    PromotedConst(DefId, GenericArgsRef<'tcx>, usize),
}

impl<'tcx> Srv<'tcx> {
    fn env(&self, root: DefId) -> TypingEnv<'tcx> { TypingEnv::post_analysis(self.tcx, root) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.type_ids.get(&t) { return *x; }
        let n = self.types.len();
        self.types.push(t);
        self.type_ids.insert(t, n);
        n
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J { i(self.ty(t)) }

    fn inst(&mut self, root: DefId, x: I2<'tcx>) -> usize {
        if let Some(n) = self.inst_ids.get(&(root, x)) { return *n; }
        let n = self.insts.len();
        self.insts.push((root, x));
        self.inst_ids.insert((root, x), n);
        n
    }

    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn rawpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(t.to_string()) }

    fn norm(&self, root: DefId, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env(root), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // written by a macro of another crate
        let e = sp.ctxt().outer_expn_data();
        let foreign = matches!(e.kind, rustc_span::ExpnKind::Macro(..)) && e.macro_def_id.map_or(false, |d| d.krate != LOCAL_CRATE);
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        if foreign { return J::A(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), i(lo.line), J::B(true)]); }
        J::A(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), i(lo.line)])
    }

    fn args(&mut self, a: &[GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for x in a {
            match x.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.tyj(t)),
                ty::GenericArgKind::Const(c) => v.push(s(format!("const {}", c))),
                _ => {}
            }
        }
        J::A(v)
    }

    fn type_json(&mut self, root: DefId, t: Ty<'tcx>) -> J {
        let mut o = vec![("s", s(self.tystr(t)))];
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => { o.push(("k", s("int"))); o.push(("bits", i(x.normalize(64).bit_width().unwrap() as usize))); }
            ty::Uint(x) => { o.push(("k", s("uint"))); o.push(("bits", i(x.normalize(64).bit_width().unwrap() as usize))); }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("raw", s(self.rawpath(def.did()))));
                o.push(("krate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("args", self.args(args)));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("transparent", J::B(def.repr().transparent())));
                o.push(("box", J::B(def.is_box())));
                o.push(("phantom", J::B(def.is_phantom_data())));
                o.push(("unsafe_cell", J::B(def.is_unsafe_cell())));
                o.push(("drop", match tcx.adt_destructor(def.did()) { Some(d) => s(self.path(d.did)), None => J::Null }));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let inst = Instance::new_raw(d.did, args);
                    let id = self.inst(root, I2::Inst(inst));
                    o.push(("drop_inst", i(id)));
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(root, ft.skip_norm_wip());
                        fs.push(J::A(vec![s(f.name.to_string()), self.tyj(ft)]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(discr as i128)), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                o.push(("elem", self.tyj(e)));
                let n = n.try_to_target_usize(tcx);
                o.push(("len", match n { Some(n) => J::I(n as i128), None => J::Null }));
            }
            ty::Slice(e) => { o.push(("k", s("slice"))); o.push(("elem", self.tyj(e))); }
            ty::RawPtr(e, m) => { o.push(("k", s("ptr"))); o.push(("elem", self.tyj(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("elem", self.tyj(e))); o.push(("mut", J::B(m.is_mut()))); }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let a = tcx.erase_and_anonymize_regions(a.skip_binder());
                let id = self.resolve(root, d, a);
                o.push(("inst", i(id)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let mut fs = vec![];
                for u in a.as_closure().upvar_tys() {
                    let u = self.norm(root, u);
                    fs.push(self.tyj(u));
                }
                o.push(("fields", J::A(fs)));
                let id = self.inst(root, I2::Inst(Instance::new_raw(d, a)));
                o.push(("inst", i(id)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut fs = vec![];
                for u in ts.iter() { fs.push(self.tyj(u)); }
                o.push(("fields", J::A(fs)));
            }
            ty::Alias(_, a) => {
                o.push(("k", s("alias")));
                o.push(("args", self.args(a.args)));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            _ => o.push(("k", s("other"))),
        }
        let env = self.env(root);
        o.push(("needs_drop", J::B(t.needs_drop(tcx, env))));
        o.push(("copy", J::B(tcx.type_is_copy_modulo_regions(env, t))));
        o.push(("freeze", J::B(t.is_freeze(tcx, env))));
        J::O(o)
    }

    fn resolve(&mut self, root: DefId, d: DefId, a: GenericArgsRef<'tcx>) -> usize {
        let env = self.env(root);
        let a = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a)).unwrap_or(a);
        match Instance::try_resolve(self.tcx, env, d, a) {
            Ok(Some(inst)) => self.inst(root, I2::Inst(inst)),
            _ => self.inst(root, I2::Unresolved(d, a)),
        }
    }

    fn inst_json(&mut self, id: usize) -> J {
        let tcx = self.tcx;
        let (_root, x) = self.insts[id];
        let mut o: Vec<(&'static str, J)> = vec![("id", i(id))];
        let (d, a, kind): (DefId, GenericArgsRef<'tcx>, String) = match x {
            I2::Unresolved(d, a) => (d, a, "unresolved".into()),
            I2::Const(d, a) => (d, a, "const".into()),
            I2::Promoted(inst, _) => (inst.def_id(), inst.args, "promoted".into()),
            I2::PromotedConst(d, a, _) => (d, a, "promoted".into()),
            I2::Inst(inst) => {
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ref sh) => match sh {
                        ShimKind::Clone(..) => "clone_shim",
                        ShimKind::DropGlue(..) => "drop_glue",
                        ShimKind::ClosureOnce { .. } => "closure_once",
                        ShimKind::FnPtr(..) => "fn_ptr",
                        ShimKind::Reify(..) => "reify",
                        _ => "shim",
                    },
                };
                (inst.def_id(), inst.args, k.into())
            }
        };
        o.push(("kind", s(kind)));
        o.push(("path", s(self.path(d))));
        o.push(("raw", s(self.rawpath(d))));
        o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_else(|| "{anon}".into()))));
        o.push(("krate", s(tcx.crate_name(d.krate).to_string())));
        o.push(("args", self.args(a)));
        o.push(("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, a)))));
        let is_closure = matches!(tcx.def_kind(d), DefKind::Closure);
        o.push(("closure", J::B(is_closure)));
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            let v = if tcx.def_kind(p) == DefKind::Variant { tcx.adt_def(tcx.parent(p)).variant_index_with_id(p).as_usize() } else { 0 };
            o.push(("ctor", i(v)));
        }
        // the trait it belongs to: declared in, or implemented from
        let mut tr = J::Null;
        let mut imp = J::Null;
        let mut selfty = J::Null;
        if let Some(t) = tcx.trait_of_assoc(d) { tr = s(self.path(t)); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            imp = s(self.rawpath(im));
            if let Some(r) = tcx.impl_opt_trait_ref(im) { tr = s(self.path(r.skip_binder().def_id)); }
            selfty = s(self.tystr(tcx.type_of(im).skip_binder()));
        }
        o.push(("trait", tr));
        o.push(("impl", imp));
        o.push(("selfty", selfty));
        let has_body = match x {
            I2::Unresolved(..) => false,
            I2::Const(..) | I2::Promoted(..) | I2::PromotedConst(..) => true,
            I2::Inst(inst) => match inst.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d),
                InstanceKind::Shim(_) => true,
                _ => false,
            },
        };
        o.push(("body", J::B(has_body)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        o.push(("span", self.span(tcx.def_span(d))));
        J::O(o)
    }

    // ------------------------------------------------------------ bodies
    fn body_of(&self, id: usize) -> Option<Body<'tcx>> {
        let tcx = self.tcx;
        let (root, x) = self.insts[id];
        let env = self.env(root);
        let sub = |b: &Body<'tcx>, a: GenericArgsRef<'tcx>| -> Body<'tcx> {
            tcx.instantiate_and_normalize_erasing_regions(a, env, ty::EarlyBinder::bind(tcx, b.clone()))
        };
        match x {
            I2::Unresolved(..) => None,
            I2::Const(d, a) => Some(sub(tcx.mir_for_ctfe(d), a)),
            I2::PromotedConst(d, a, n) => Some(sub(&tcx.promoted_mir(d)[mir::Promoted::from_usize(n)], a)),
            I2::Promoted(inst, n) => {
                Some(sub(&tcx.promoted_mir(inst.def_id())[mir::Promoted::from_usize(n)], inst.args))
            }
            I2::Inst(inst) => {
                match inst.def {
                    InstanceKind::Item(d) if !tcx.is_mir_available(d) => return None,
                    InstanceKind::Item(_) | InstanceKind::Shim(_) => {}
                    _ => return None,
                }
                let b = tcx.instance_mir(inst.def);
                Some(inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())))
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), self.tyj(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(offset as usize), i(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from as usize), i(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => J::A(vec![s("oc")]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(v)])
    }

    fn cval(&mut self, root: DefId, val: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let mut o = vec![("ty", self.tyj(t))];
        match val {
            ConstValue::Scalar(interpret::Scalar::Int(n)) => {
                o.push(("k", s("int")));
                let sz = n.size();
                let bits = n.to_bits(sz);
                let signed = matches!(t.kind(), ty::Int(_));
                o.push(("v", if signed { J::I(sz.sign_extend(bits)) } else { J::S(bits.to_string()) }));
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) {
                    if depth < 8 {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                            let mut fs = vec![];
                            for (v, ft) in d.fields.iter() { fs.push(self.cval(root, *v, *ft, depth + 1)); }
                            o[1] = ("k", s("agg"));
                            o.push(("variant", match d.variant { Some(v) => i(v.as_usize()), None => J::Null }));
                            o.push(("fields", J::A(fs)));
                        }
                    }
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, _off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(interpret::GlobalAlloc::Static(d)) => { o.push(("k", s("static"))); o.push(("path", s(self.path(d)))); }
                    Some(interpret::GlobalAlloc::Function { instance }) => {
                        o.push(("k", s("fnptr")));
                        let id = self.inst(root, I2::Inst(instance));
                        o.push(("inst", i(id)));
                    }
                    _ => o.push(("k", s("alloc"))),
                }
            }
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = *t.kind() {
                    o.push(("k", s("fn")));
                    let a = tcx.erase_and_anonymize_regions(a.skip_binder());
                    let id = self.resolve(root, d, a);
                    o.push(("inst", i(id)));
                } else {
                    o.push(("k", s("zst")));
                }
            }
            ConstValue::Slice { .. } => {
                match val.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => { o.push(("k", s("str"))); o.push(("v", s(String::from_utf8_lossy(b).to_string()))); }
                    None => o.push(("k", s("alloc"))),
                }
            }
            ConstValue::Indirect { .. } => {
                let ok = matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && depth < 8;
                if ok {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                        let mut fs = vec![];
                        for (v, ft) in d.fields.iter() { fs.push(self.cval(root, *v, *ft, depth + 1)); }
                        o.push(("k", s("agg")));
                        o.push(("variant", match d.variant { Some(v) => i(v.as_usize()), None => J::Null }));
                        o.push(("fields", J::A(fs)));
                        return J::O(o);
                    }
                }
                o.push(("k", s("alloc")));
            }
        }
        J::O(o)
    }

    fn constant(&mut self, root: DefId, owner: I2<'tcx>, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let env = self.env(root);
        match *c {
            mir::Const::Val(v, t) => self.cval(root, v, t, 0),
            mir::Const::Ty(t, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(n) = v.try_to_leaf() {
                        let sz = n.size();
                        return J::O(vec![("ty", self.tyj(t)), ("k", s("int")), ("v", s(n.to_bits(sz).to_string()))]);
                    }
                }
                J::O(vec![("ty", self.tyj(t)), ("k", s("param")), ("s", s(format!("{}", ct)))])
            }
            mir::Const::Unevaluated(uv, t) => {
                if let Some(p) = uv.promoted {
                    let id = match owner {
                        I2::Inst(inst) if inst.def_id() == uv.def => self.inst(root, I2::Promoted(Instance { def: inst.def, args: uv.args }, p.as_usize())),
                        _ => {
                            if matches!(tcx.def_kind(uv.def), DefKind::Const | DefKind::AssocConst | DefKind::AnonConst | DefKind::Static { .. }) {
                                self.inst(root, I2::PromotedConst(uv.def, uv.args, p.as_usize()))
                            } else {
                                self.inst(root, I2::Promoted(Instance::new_raw(uv.def, uv.args), p.as_usize()))
                            }
                        }
                    };
                    return J::O(vec![("ty", self.tyj(t)), ("k", s("promoted")), ("inst", i(id))]);
                }
                let a = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(uv.args)).unwrap_or(uv.args);
                match Instance::try_resolve(tcx, env, uv.def, a) {
                    Ok(Some(inst)) => {
                        if !ty::TypeVisitableExt::has_param(&inst.args) {
                            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                                return self.cval(root, v, t, 0);
                            }
                        }
                        let d = inst.def_id();
                        let id = self.inst(root, I2::Const(d, inst.args));
                        J::O(vec![("ty", self.tyj(t)), ("k", s("constbody")), ("inst", i(id)), ("path", s(self.path(d)))])
                    }
                    _ => {
                        let id = self.inst(root, I2::Unresolved(uv.def, a));
                        J::O(vec![("ty", self.tyj(t)), ("k", s("assoc")), ("inst", i(id)), ("path", s(self.path(uv.def)))])
                    }
                }
            }
        }
        .tap(|j| { let _ = (j, t); })
    }

    fn operand(&mut self, root: DefId, owner: I2<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(root, owner, &c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, root: DefId, ow: I2<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(root, ow, op)]),
            Rvalue::Repeat(op, n) => {
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => J::I(n as i128), None => J::Null };
                J::A(vec![s("repeat"), self.operand(root, ow, op), n])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), self.place(p), s(format!("{:?}", k))]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, op, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(root, ow, op), self.tyj(*t)]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(root, ow, &ops.0), self.operand(root, ow, &ops.1)]),
            Rvalue::UnaryOp(u, op) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(root, ow, op)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() { v.push(self.operand(root, ow, o)); }
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.tyj(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        J::A(vec![s("adt"), self.tyj(t), i(vi.as_usize()), match f { Some(f) => i(f.as_usize()), None => J::Null }])
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, *d, a); J::A(vec![s("closure"), self.tyj(t)]) }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.tyj(*t)]),
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => { let pl = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), pl])]) }
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn unwind(u: &UnwindAction) -> J {
        match u { UnwindAction::Cleanup(b) => i(b.as_usize()), _ => J::Null }
    }

    fn body_json(&mut self, id: usize) -> J {
        let (root, ow) = self.insts[id];
        let Some(b) = self.body_of(id) else { return J::Null };
        let mut locals = vec![];
        for l in b.local_decls.iter() { locals.push(self.tyj(l.ty)); }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(a) => J::A(vec![s("="), self.place(&a.0), self.rvalue(root, ow, &a.1), self.span(x.source_info.span)]),
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![s("setdiscr"), self.place(place), i(variant_index.as_usize())]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), i(l.as_usize())]),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(op) => J::A(vec![s("assume"), self.operand(root, ow, op)]),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => J::A(vec![s("cno"), self.operand(root, ow, &c.src), self.operand(root, ow, &c.dst), self.operand(root, ow, &c.count)]),
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, t) in targets.iter() { v.push(J::A(vec![J::S(val.to_string()), i(t.as_usize())])); }
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    J::A(vec![s("switch"), self.operand(root, ow, discr), J::A(v), i(targets.otherwise().as_usize()), self.tyj(dt), sp])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("terminate")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    J::A(vec![s("drop"), self.place(place), i(target.as_usize()), Self::unwind(unwind), self.tyj(pt), sp])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&b.local_decls, self.tcx);
                    let f = match *ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = self.tcx.erase_and_anonymize_regions(a.skip_binder());
                            let n = self.resolve(root, d, a);
                            // how the source names it, before resolution
                            let via = self.inst(root, I2::Unresolved(d, a));
                            J::A(vec![s("fn"), i(n), i(via)])
                        }
                        _ => J::A(vec![s("op"), self.operand(root, ow, func)]),
                    };
                    let mut v = vec![];
                    for a in args.iter() { v.push(self.operand(root, ow, &a.node)); }
                    J::A(vec![s("call"), f, J::A(v), self.place(destination), match target { Some(t) => i(t.as_usize()), None => J::Null }, Self::unwind(unwind), sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    J::A(vec![s("assert"), self.operand(root, ow, cond), J::B(*expected), i(target.as_usize()), Self::unwind(unwind), s(k), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                k => J::A(vec![s("?"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("inst", i(id)),
            ("args", i(b.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", match b.spread_arg { Some(l) => i(l.as_usize()), None => J::Null }),
            ("span", self.span(b.span)),
        ])
    }

    fn roots_json(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let k = match kind {
                DefKind::Fn => "fn", DefKind::AssocFn => "assocfn", DefKind::Closure => "closure",
                DefKind::Const { .. } => "const", DefKind::AssocConst { .. } => "assocconst", DefKind::Static { .. } => "static",
                DefKind::AnonConst { .. } => "anonconst", DefKind::Ctor(..) => "ctor", _ => "other",
            };
            // closures are analysed in the environment of their parent
            let root = tcx.typeck_root_def_id(d);
            let a = ty::GenericArgs::identity_for_item(tcx, d);
            let a = tcx.erase_and_anonymize_regions(a);
            if !self.roots.contains(&root) { self.roots.push(root); }
            let id = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => self.inst(root, I2::Inst(Instance::new_raw(d, a))),
                _ => self.inst(root, I2::Const(d, a)),
            };
            let mut o = vec![
                ("kind", s(k)), ("path", s(self.path(d))), ("raw", s(self.rawpath(d))), ("inst", i(id)),
                ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
                ("span", self.span(tcx.def_span(d))),
                ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                ("pub", J::B(matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public())),
            ];
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(self.rawpath(im))));
                o.push(("selfty", s(self.tystr(tcx.type_of(im).skip_binder()))));
                if let Some(r) = tcx.impl_opt_trait_ref(im) { o.push(("trait", s(self.path(r.skip_binder().def_id)))); }
            } else if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(t))));
            }
            v.push(J::O(o));
        }
        J::A(v)
    }

    fn model_json(&mut self, root: DefId, name: &str, a: &[GenericArg<'tcx>]) -> J {
        let tcx = self.tcx;
        for &c in tcx.crates(()) {
            if tcx.crate_name(c).as_str() != "itermodels" { continue; }
            for ch in tcx.module_children(c.as_def_id()) {
                if ch.ident.name.as_str() != name { continue; }
                let Some(d) = ch.res.opt_def_id() else { continue };
                let a = tcx.mk_args(a);
                if a.len() != tcx.generics_of(d).count() { return J::Null; }
                return i(self.resolve(root, d, a));
            }
        }
        J::Null
    }

    fn items_json(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let k = format!("{:?}", tcx.def_kind(d));
            let mut o = vec![("kind", s(k.clone())), ("path", s(self.path(d))), ("raw", s(self.rawpath(d))), ("span", self.span(tcx.def_span(d)))];
            if matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                o.push(("selfty", s(self.tystr(tcx.type_of(d).skip_binder()))));
                if let Some(r) = tcx.impl_opt_trait_ref(d) {
                    o.push(("trait", s(self.path(r.skip_binder().def_id))));
                    o.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
                }
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).skip_binder());
                let t = self.norm(d, t);
                o.push(("ty", self.tyj(t)));
                o.push(("root", i(self.root_of(d))));
            }
            v.push(J::O(o));
        }
        J::A(v)
    }

    fn root_of(&mut self, d: DefId) -> usize {
        if let Some(p) = self.roots.iter().position(|x| *x == d) { return p; }
        self.roots.push(d);
        self.roots.len() - 1
    }

    fn serve(&mut self) {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        let _ = writeln!(out, "ready");
        let _ = out.flush();
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() { continue; }
            let num = |k: usize| w.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
            let j = match w[0] {
                "quit" => break,
                "roots" => self.roots_json(),
                "items" => self.items_json(),
                "body" => self.body_json(num(1)),
                "inst" => self.inst_json(num(1)),
                // type <id> <inst>: in the environment of that instance's root
                "type" => {
                    let root = self.insts[num(2)].0;
                    let t = self.types[num(1)];
                    self.type_json(root, t)
                }
                // the plain model of a library function with the given type arguments: model <name> <inst> <type id>...
                "model" => {
                    let root = self.insts[num(2)].0;
                    let a: Vec<_> = (3..w.len()).map(|k| GenericArg::from(self.types[num(k)])).collect();
                    self.model_json(root, w[1], &a)
                }
                "typeroot" => {
                    let root = self.roots[num(2)];
                    let t = self.types[num(1)];
                    self.type_json(root, t)
                }
                _ => J::Null,
            };
            let mut o = String::new();
            j.w(&mut o);
            o.push('\n');
            let _ = out.write_all(o.as_bytes());
            let _ = out.flush();
        }
    }
}

trait Tap: Sized { fn tap(self, f: impl FnOnce(&Self)) -> Self { f(&self); self } }
impl Tap for J {}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut srv = Srv { tcx, types: vec![], type_ids: HashMap::new(), insts: vec![], inst_ids: HashMap::new(), roots: vec![] };
        srv.serve();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[0] is the driver itself
    if let Ok(sr) = std::env::var("MIRSERVE_SYSROOT") {
        args.push("--sysroot".into());
        args.push(sr);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
