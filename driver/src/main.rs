//! `mirdump`: a rustc driver used as RUSTC_WORKSPACE_WRAPPER. It lets rustc type-check the crate as usual and then
//! writes, as JSON, the monomorphised MIR of every function of the crate (and of the generic library code they reach),
//! with every callee resolved. Nothing is executed; the JSON is what the analyses in ../analysis read.
#![feature(rustc_private, exitcode_exit_method)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_structures;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_span::{DUMMY_SP, Span, Symbol, sym};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => write!(o, "{n}").unwrap(),
            J::U(n) => write!(o, "{n}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.out(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{n}\":").unwrap();
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}

macro_rules! pp {
    ($e:expr) => {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!($e)
        ))
    };
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    tytab: Vec<J>,
    tyqueue: Vec<Ty<'tcx>>,
    insts: HashMap<Instance<'tcx>, usize>,
    order: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    stop: Vec<String>,
    bodies: HashMap<usize, J>,
    vtabs: HashMap<(usize, usize), J>,
    iters: HashMap<usize, J>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        i(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line)
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&n) = self.insts.get(&inst) {
            return n;
        }
        let n = self.order.len();
        self.insts.insert(inst, n);
        self.order.push(inst);
        self.queue.push_back(n);
        n
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.types.get(&t) {
            return n;
        }
        let n = self.tytab.len();
        self.types.insert(t, n);
        self.tytab.push(J::N);
        let name = pp!(format!("{t}"));
        let tcx = self.tcx;
        let mut o = vec![("s", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, u, m) => {
                o.push(("k", s("ref")));
                let u = self.ty(u);
                o.push(("e", i(u)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(u, m) => {
                o.push(("k", s("ptr")));
                let u = self.ty(u);
                o.push(("e", i(u)));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Slice(u) => {
                o.push(("k", s("slice")));
                let u = self.ty(u);
                o.push(("e", i(u)));
            }
            ty::Array(u, c) => {
                o.push(("k", s("array")));
                let u = self.ty(u);
                o.push(("e", i(u)));
                if let Some(c) = c.try_to_target_usize(tcx) {
                    o.push(("n", J::I(c as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|u| i(self.ty(u))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("p", s(pp!(tcx.def_path_str(def.did())))));
                let targs: Vec<J> = args.types().map(|u| i(self.ty(u))).collect();
                o.push(("a", J::A(targs)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() {
                        J::U(def.discriminant_for_variant(tcx, vi).val)
                    } else {
                        J::I(0)
                    };
                    let fs: Vec<J> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.normalize_erasing_regions(self.env, ft);
                            J::A(vec![s(f.name.as_str()), i(self.ty(ft))])
                        })
                        .collect();
                    vs.push(J::A(vec![s(v.name.as_str()), disc, J::A(fs)]));
                }
                o.push(("v", J::A(vs)));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if def.did().is_local() {
                        if let Ok(Some(ins)) = Instance::try_resolve(tcx, self.env, d.did, args) {
                            let n = self.inst(ins);
                            o.push(("drop", i(n)));
                        }
                    }
                    o.push(("hasdrop", J::B(true)));
                }
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(pp!(tcx.def_path_str(did)))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|u| i(self.ty(u))).collect();
                o.push(("f", J::A(ups)));
                let body = Instance::resolve_closure(tcx, did, args, args.as_closure().kind());
                let n = self.inst(body);
                o.push(("body", i(n)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(pp!(tcx.def_path_str(did)))));
                if let Ok(Some(ins)) = Instance::try_resolve(tcx, self.env, did, args.no_bound_vars().unwrap()) {
                    let n = self.inst(ins);
                    o.push(("body", i(n)));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        if let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) {
            if !lay.is_unsized() {
                o.push(("sz", i(lay.size.bytes() as usize)));
                if let rustc_abi::FieldsShape::Arbitrary { ref offsets, .. } = lay.fields {
                    let v: Vec<J> = offsets.iter().map(|x| i(x.bytes() as usize)).collect();
                    o.push(("off", J::A(v)));
                }
            }
        }
        self.tytab[n] = J::O(o);
        n
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_usize()), i(t)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), i(offset as usize), i(min_length as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), i(from as usize), i(to as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), i(vi.as_usize())]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(v)])
    }

    fn fnref(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let path = pp!(tcx.def_path_str(did));
        let targs: Vec<J> = args.types().map(|t| i(self.ty(t))).collect();
        for t in args.types() {
            self.link_iter(t);
        }
        let mut o = vec![("p", s(path)), ("a", J::A(targs))];
        if let Some(a) = tcx.opt_associated_item(did)
            && let Some(t) = a.trait_container(tcx)
        {
            o.push(("tr", s(pp!(tcx.def_path_str(t)))));
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(ins)) => {
                let n = self.inst(ins);
                o.push(("i", i(n)));
            }
            _ => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }

    /// For every type that is an iterator, remember the instances of next / next_back (and into_iter for collections).
    fn link_iter(&mut self, t: Ty<'tcx>) {
        let tcx = self.tcx;
        if t.has_escaping_bound_vars() || !t.is_sized(tcx, self.env) {
            return;
        }
        let tid = self.ty(t);
        if self.iters.contains_key(&tid) {
            return;
        }
        self.iters.insert(tid, J::N);
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
        let mut o = vec![];
        for (tr, methods) in [
            (tcx.get_diagnostic_item(sym::Iterator), &["next"][..]),
            (tcx.get_diagnostic_item(Symbol::intern("DoubleEndedIterator")), &["next_back"][..]),
            (tcx.get_diagnostic_item(sym::IntoIterator), &["into_iter"][..]),
        ] {
            let Some(tr) = tr else { continue };
            if !infcx.type_implements_trait(tr, [t], self.env.param_env).must_apply_modulo_regions() {
                continue;
            }
            for m in methods {
                let msym = Symbol::intern(m);
                let Some(item) = tcx
                    .associated_items(tr)
                    .in_definition_order()
                    .find(|a| a.opt_name() == Some(msym))
                else {
                    continue;
                };
                let margs = tcx.mk_args(&[t.into()]);
                if let Ok(Some(ins)) = Instance::try_resolve(tcx, self.env, item.def_id, margs) {
                    let n = self.inst(ins);
                    o.push((*m, i(n)));
                }
            }
        }
        if !o.is_empty() {
            self.iters.insert(tid, J::O(o));
        }
    }

    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(v) => match *t.kind() {
                ty::Bool => J::A(vec![s("b"), J::B(v.to_bits(v.size()) != 0)]),
                ty::Char => J::A(vec![s("ch"), J::U(v.to_bits(v.size()))]),
                ty::Int(_) => J::A(vec![s("n"), J::I(v.to_int(v.size()))]),
                ty::Uint(_) => J::A(vec![s("n"), J::U(v.to_bits(v.size()))]),
                ty::Float(ty::FloatTy::F64) => {
                    let f = f64::from_bits(v.to_bits(v.size()) as u64);
                    J::A(vec![s("fl"), s(format!("{f:?}"))])
                }
                ty::Float(ty::FloatTy::F32) => {
                    let f = f32::from_bits(v.to_bits(v.size()) as u32);
                    J::A(vec![s("fl"), s(format!("{f:?}"))])
                }
                ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => J::A(vec![s("addr"), J::U(v.to_bits(v.size()))]),
                _ => J::A(vec![s("bits"), J::U(v.to_bits(v.size())), i(self.ty(t))]),
            },
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match tcx.global_alloc(id) {
                    GlobalAlloc::Function { instance } => {
                        let n = self.inst(instance);
                        let pth = pp!(tcx.def_path_str(instance.def_id()));
                        J::A(vec![s("fnp"), i(n), s(pth)])
                    }
                    GlobalAlloc::Static(d) => J::A(vec![s("static"), s(pp!(tcx.def_path_str(d)))]),
                    GlobalAlloc::Memory(_) => {
                        let inner = match *t.kind() {
                            ty::Ref(_, u, _) | ty::RawPtr(u, _) => Some(u),
                            _ => None,
                        };
                        match inner {
                            Some(u) if u.is_sized(tcx, self.env) => {
                                let v = self.cval(mir::ConstValue::Indirect { alloc_id: id, offset: off }, u, 0);
                                J::A(vec![s("ref"), v])
                            }
                            _ => J::A(vec![s("opaque"), s(format!("{t}"))]),
                        }
                    }
                    _ => J::A(vec![s("opaque"), s(format!("{t}"))]),
                }
            }
        }
    }

    fn cval(&mut self, v: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::A(vec![s("opaque"), s(format!("{t}"))]);
        }
        // str and slices behind a fat reference
        if let mir::ConstValue::Slice { alloc_id, meta } = v {
            let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                return J::A(vec![s("opaque"), s(format!("{t}"))]);
            };
            let inner = match *t.kind() {
                ty::Ref(_, u, _) | ty::RawPtr(u, _) => u,
                _ => t,
            };
            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                if inner.is_str() {
                    return J::A(vec![s("str"), s(String::from_utf8_lossy(b).into_owned())]);
                }
                return J::A(vec![s("bytes"), J::A(b.iter().map(|x| i(*x as usize)).collect())]);
            }
            if Self::is_cstr(tcx, inner) {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                return J::A(vec![s("cstr"), s(String::from_utf8_lossy(b).into_owned())]);
            }
            if let ty::Slice(e) = *inner.kind() {
                return self.mem_slice(alloc_id, rustc_abi::Size::ZERO, e, meta as usize, depth);
            }
            return J::A(vec![s("opaque"), s(format!("{t}"))]);
        }
        match *t.kind() {
            ty::FnDef(did, args) => {
                let r = self.fnref(did, args.no_bound_vars().unwrap());
                return J::A(vec![s("fn"), r]);
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) if !matches!(v, mir::ConstValue::ZeroSized) || true => {
                if let ty::Adt(d, _) = t.kind()
                    && (d.is_union())
                {
                    return J::A(vec![s("opaque"), s(format!("{t}"))]);
                }
                if let ty::Array(e, _) = *t.kind()
                    && e == tcx.types.u8
                    && let mir::ConstValue::Indirect { alloc_id, offset } = v
                    && let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id)
                {
                    let n = tcx.layout_of(self.env.as_query_input(t)).unwrap().size.bytes() as usize;
                    let o = offset.bytes() as usize;
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                    return J::A(vec![s("bytes"), J::A(b.iter().map(|x| i(*x as usize)).collect())]);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    let vi = d.variant.map_or(0, |x| x.as_usize());
                    let tid = self.ty(t);
                    return J::A(vec![s("agg"), i(tid), i(vi), J::A(fs)]);
                }
                return J::A(vec![s("opaque"), s(format!("{t}"))]);
            }
            _ => {}
        }
        match v {
            mir::ConstValue::ZeroSized => {
                let tid = self.ty(t);
                J::A(vec![s("zst"), i(tid)])
            }
            mir::ConstValue::Scalar(sc) => self.scalar(sc, t),
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                    return J::A(vec![s("opaque"), s(format!("{t}"))]);
                };
                // fat references inside memory
                if let ty::Ref(_, u, _) | ty::RawPtr(u, _) = *t.kind()
                    && (u.is_str() || matches!(u.kind(), ty::Slice(_)) || Self::is_cstr(tcx, u))
                {
                    let ps = tcx.data_layout.pointer_size();
                    let p = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true);
                    let l = a.inner().read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false);
                    if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (p, l) {
                        let len = l.to_bits(l.size()) as usize;
                        let (prov, off) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        let GlobalAlloc::Memory(b) = tcx.global_alloc(id) else {
                            return J::A(vec![s("opaque"), s(format!("{t}"))]);
                        };
                        if Self::is_cstr(tcx, u) {
                            let o = off.bytes() as usize;
                            let b = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len);
                            return J::A(vec![s("cstr"), s(String::from_utf8_lossy(b).into_owned())]);
                        }
                        if u.is_str() {
                            let o = off.bytes() as usize;
                            let b = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len);
                            return J::A(vec![s("str"), s(String::from_utf8_lossy(b).into_owned())]);
                        }
                        if let ty::Slice(e) = *u.kind() {
                            return self.mem_slice(id, off, e, len, depth);
                        }
                    }
                    return J::A(vec![s("opaque"), s(format!("{t}"))]);
                }
                let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) else {
                    return J::A(vec![s("opaque"), s(format!("{t}"))]);
                };
                if !matches!(lay.backend_repr, rustc_abi::BackendRepr::Scalar(_)) {
                    return J::A(vec![s("opaque"), s(format!("{t}"))]);
                }
                let prov = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                match a.inner().read_scalar(&tcx, AllocRange { start: offset, size: lay.size }, prov) {
                    Ok(sc) => self.scalar(sc, t),
                    Err(_) => J::A(vec![s("opaque"), s(format!("{t}"))]),
                }
            }
            mir::ConstValue::Slice { .. } => unreachable!(),
        }
    }

    fn is_cstr(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if pp!(tcx.def_path_str(d.did())).ends_with("::CStr"))
    }

    fn mem_slice(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, e: Ty<'tcx>, len: usize, depth: usize) -> J {
        let tcx = self.tcx;
        let Ok(lay) = tcx.layout_of(self.env.as_query_input(e)) else {
            return J::A(vec![s("opaque"), s(format!("[{e}]"))]);
        };
        let mut v = vec![];
        for k in 0..len {
            v.push(self.cval(
                mir::ConstValue::Indirect { alloc_id: id, offset: off + lay.size * (k as u64) },
                e,
                depth + 1,
            ));
        }
        let tid = self.ty(e);
        J::A(vec![s("slice"), i(tid), J::A(v)])
    }

    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let name = match c {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => s(pp!(self.tcx.def_path_str(u.def))),
            _ => J::N,
        };
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => {
                let v = self.cval(v, t, 0);
                J::A(vec![s("k"), v, i(tid), name])
            }
            Err(_) => J::A(vec![s("k"), J::A(vec![s("opaque"), s(format!("{t}"))]), i(tid), name]),
        }
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => self.constant(&c.const_),
            mir::Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        J::A(match r {
            Use(o, _) => vec![s("use"), self.operand(o)],
            Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::N, |x| J::I(x as i128));
                vec![s("rep"), self.operand(o), n]
            }
            Ref(_, k, p) => vec![s("ref"), self.place(p), J::B(matches!(k, mir::BorrowKind::Mut { .. }))],
            ThreadLocalRef(d) => vec![s("tls"), s(pp!(self.tcx.def_path_str(*d)))],
            RawPtr(_, p) => vec![s("raw"), self.place(p)],
            Cast(k, o, t) => {
                let ks = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("PtrCoercion:{c:?}"),
                    k => format!("{k:?}"),
                };
                let o = self.operand(o);
                let t = self.ty(*t);
                vec![s("cast"), s(ks), o, i(t)]
            }
            BinaryOp(b, ab) => {
                let x = self.operand(&ab.0);
                let y = self.operand(&ab.1);
                vec![s("bin"), s(format!("{b:?}")), x, y]
            }
            UnaryOp(u, a) => {
                let x = self.operand(a);
                vec![s("un"), s(format!("{u:?}")), x]
            }
            Discriminant(p) => vec![s("disc"), self.place(p)],
            Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (n, t, vi, af) = match **k {
                    mir::AggregateKind::Array(t) => ("array", i(self.ty(t)), 0, J::N),
                    mir::AggregateKind::Tuple => ("tuple", J::N, 0, J::N),
                    mir::AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        ("adt", i(self.ty(t)), vi.as_usize(), af.map_or(J::N, |f| i(f.as_usize())))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        ("closure", i(self.ty(t)), 0, J::N)
                    }
                    mir::AggregateKind::RawPtr(t, _) => ("rawptr", i(self.ty(t)), 0, J::N),
                    _ => ("other", J::N, 0, J::N),
                };
                vec![s("agg"), s(n), t, i(vi), J::A(ops), af]
            }
            CopyForDeref(p) => vec![s("use"), J::A(vec![s("c"), self.place(p)])],
            Reborrow(_, _, p) => vec![s("use"), J::A(vec![s("c"), self.place(p)])],
            WrapUnsafeBinder(o, _) => vec![s("use"), self.operand(o)],
        })
    }

    /// A coercion to a trait object: remember the functions of the table it installs.
    fn unsized_as(&mut self, a: Ty<'tcx>, b: Ty<'tcx>, depth: usize) {
        let tcx = self.tcx;
        if depth > 6 || a == b {
            return;
        }
        if let ty::Dynamic(preds, ..) = b.kind() {
            if matches!(a.kind(), ty::Dynamic(..)) {
                return;
            }
            let Some(pr) = preds.principal() else { return };
            let key = (self.ty(a), self.ty(b));
            if self.vtabs.contains_key(&key) {
                return;
            }
            self.vtabs.insert(key, J::N);
            let tr = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(pr).with_self_ty(tcx, a));
            let mut o = vec![];
            for e in tcx.vtable_entries(tr) {
                if let ty::VtblEntry::Method(ins) = e {
                    let n = self.inst(*ins);
                    o.push(J::A(vec![s(tcx.opt_item_name(ins.def_id()).map_or("call".to_string(), |x| x.to_string())), i(n)]));
                }
            }
            self.vtabs.insert(key, J::A(o));
            return;
        }
        match (a.kind(), b.kind()) {
            (ty::Ref(_, x, _) | ty::RawPtr(x, _), ty::Ref(_, y, _) | ty::RawPtr(y, _)) => self.unsized_as(*x, *y, depth + 1),
            (ty::Adt(x, xs), ty::Adt(y, ys)) if x == y => {
                for (p, q) in xs.types().zip(ys.types()) {
                    self.unsized_as(p, q, depth + 1);
                }
            }
            _ => {}
        }
    }

    fn body(&mut self, n: usize) -> Option<J> {
        let tcx = self.tcx;
        let inst = self.order[n];
        let did = inst.def_id();
        match inst.def {
            InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    return None;
                }
                if !d.is_local() {
                    let p = pp!(tcx.def_path_str(d));
                    let full = format!("{}::{}", tcx.crate_name(d.krate), p);
                    if self.stop.iter().any(|x| p.starts_with(x.as_str()) || full.starts_with(x.as_str())) {
                        return None;
                    }
                }
                if !tcx.is_mir_available(d) {
                    return None;
                }
            }
            InstanceKind::Shim(ShimKind::DropGlue(..)) => return None,
            InstanceKind::Shim(ShimKind::ThreadLocal(..)) => return None,
            InstanceKind::Shim(ShimKind::Clone(..)) => return None,
            InstanceKind::Shim(_) => {}
            _ => return None,
        }
        let b = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, b.clone()),
        );
        let locals: Vec<J> = body.local_decls.iter().map(|l| i(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            let mut ss = vec![];
            for st in bb.statements.iter() {
                match &st.kind {
                    mir::StatementKind::Assign(pr) => {
                        if let mir::Rvalue::Cast(mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, t) = &pr.1 {
                            self.unsized_as(o.ty(&body.local_decls, tcx), *t, 0);
                        }
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1);
                        ss.push(J::A(vec![s("="), p, r, self.line(st.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&place);
                        ss.push(J::A(vec![s("sd"), p, i(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(x) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(c) = &**x {
                            let a = self.operand(&c.src);
                            let b = self.operand(&c.dst);
                            let d = self.operand(&c.count);
                            ss.push(J::A(vec![s("cno"), a, b, d]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            use mir::TerminatorKind::*;
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                Goto { target, .. } => vec![s("goto"), i(target.as_usize())],
                SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> =
                        targets.iter().map(|(v, b)| J::A(vec![J::U(v), i(b.as_usize())])).collect();
                    vec![s("switch"), d, J::A(v), i(targets.otherwise().as_usize()), i(dt)]
                }
                Return => vec![s("ret")],
                Unreachable => vec![s("unreachable")],
                Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    vec![s("drop"), self.place(place), i(target.as_usize()), i(pt)]
                }
                Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    vec![s("call"), f, J::A(a), d, target.map_or(J::N, |t| i(t.as_usize())), ln.clone()]
                }
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        m => format!("{m:?}").chars().take(40).collect(),
                    };
                    vec![s("assert"), c, J::B(*expected), i(target.as_usize()), s(m), ln.clone()]
                }
                FalseEdge { real_target, .. } | FalseUnwind { real_target, .. } => {
                    vec![s("goto"), i(real_target.as_usize())]
                }
                UnwindResume | UnwindTerminate(_) => vec![s("unwind")],
                other => vec![s("otherterm"), s(format!("{other:?}"))],
            };
            blocks.push(J::A(vec![J::A(ss), J::A(tj), ln]));
        }
        let mut vars = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                vars.push(J::A(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        let spread = body.spread_arg.map_or(J::N, |l| i(l.as_usize()));
        let _ = did;
        Some(J::O(vec![
            ("argc", i(body.arg_count)),
            ("locals", J::A(locals)),
            ("vars", J::A(vars)),
            ("spread", spread),
            ("blocks", J::A(blocks)),
        ]))
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let env = TypingEnv::fully_monomorphized();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')).map(String::from).collect())
        .unwrap_or_default();
    let mut cx = Cx {
        tcx,
        env,
        types: HashMap::new(),
        tytab: vec![],
        tyqueue: vec![],
        insts: HashMap::new(),
        order: vec![],
        queue: VecDeque::new(),
        stop,
        bodies: HashMap::new(),
        vtabs: HashMap::new(),
        iters: HashMap::new(),
    };
    let _ = &cx.tyqueue;
    let mut roots = vec![];
    let mut exports = vec![];
    let mut statics = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                if !tcx.is_mir_available(did) {
                    continue;
                }
                if tcx.is_foreign_item(did) {
                    continue;
                }
                let n = cx.inst(Instance::mono(tcx, did));
                roots.push(i(n));
                let attrs = tcx.codegen_fn_attrs(did);
                if attrs.flags.contains(CodegenFnAttrFlags::NO_MANGLE) || attrs.symbol_name.is_some() {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| i(cx.ty(*t))).collect();
                    let o = cx.ty(sig.output());
                    exports.push(J::O(vec![
                        ("i", i(n)),
                        ("p", s(pp!(tcx.def_path_str(did)))),
                        ("name", s(tcx.symbol_name(Instance::mono(tcx, did)).name)),
                        ("abi", s(format!("{:?}", sig.abi()))),
                        ("in", J::A(ins)),
                        ("out", i(o)),
                        ("vis", J::B(tcx.visibility(did).is_public())),
                        ("cvar", J::B(sig.c_variadic())),
                        ("span", s(cx.span(tcx.def_span(did)))),
                    ]));
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let attrs = tcx.codegen_fn_attrs(did);
                let freeze = t.is_freeze(tcx, env);
                statics.push(J::O(vec![
                    ("p", s(pp!(tcx.def_path_str(did)))),
                    ("ty", i(tid)),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(freeze)),
                    ("tls", J::B(attrs.flags.contains(CodegenFnAttrFlags::THREAD_LOCAL))),
                    ("span", s(cx.span(tcx.def_span(did)))),
                ]));
            }
            _ => {}
        }
    }
    while let Some(n) = cx.queue.pop_front() {
        if let Some(b) = cx.body(n) {
            cx.bodies.insert(n, b);
        }
    }
    let mut fns = vec![];
    for (n, inst) in cx.order.clone().into_iter().enumerate() {
        let did = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(ShimKind::ThreadLocal(..)) => "tlsshim",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
            InstanceKind::Shim(_) => "shim",
        };
        let sym = if matches!(kind, "item" | "closureonce") && !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            s(tcx.symbol_name(inst).name)
        } else {
            J::N
        };
        let targs: Vec<J> = inst.args.types().map(|t| i(cx.ty(t))).collect();
        let mut o = vec![
            ("id", i(n)),
            ("kind", s(kind)),
            ("p", s(pp!(tcx.def_path_str(did)))),
            ("crate", s(tcx.crate_name(did.krate).as_str())),
            ("local", J::B(did.is_local())),
            ("sym", sym),
            ("a", J::A(targs)),
            ("span", s(cx.span(tcx.def_span(did)))),
        ];
        if let Some(a) = tcx.opt_associated_item(did) {
            if let Some(t) = a.trait_container(tcx) {
                o.push(("tr", s(pp!(tcx.def_path_str(t)))));
            }
            if let Some(im) = a.impl_container(tcx)
                && let Some(tr) = tcx.impl_opt_trait_ref(im)
            {
                o.push(("tr", s(pp!(tcx.def_path_str(tr.skip_binder().def_id)))));
                o.push(("name", s(tcx.item_name(did).as_str())));
            }
        }
        if let Some(b) = cx.bodies.remove(&n) {
            o.push(("b", b));
        }
        fns.push(J::O(o));
    }
    let iters: Vec<J> = {
        let mut v: Vec<_> = cx.iters.iter().filter(|(_, j)| !matches!(j, J::N)).collect();
        v.sort_by_key(|x| *x.0);
        v.into_iter().map(|(t, j)| J::A(vec![i(*t), j.clone()])).collect()
    };
    let vtabs: Vec<J> = {
        let mut v: Vec<_> = cx.vtabs.iter().filter(|(_, j)| !matches!(j, J::N)).collect();
        v.sort_by_key(|x| *x.0);
        v.into_iter().map(|((t, u), j)| J::A(vec![i(*t), i(*u), j.clone()])).collect()
    };
    let top = J::O(vec![
        ("vtabs", J::A(vtabs)),
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("roots", J::A(roots)),
        ("exports", J::A(exports)),
        ("statics", J::A(statics)),
        ("iters", J::A(iters)),
        ("types", J::A(std::mem::take(&mut cx.tytab))),
        ("fns", J::A(fns)),
    ]);
    let mut t = String::new();
    top.out(&mut t);
    std::fs::write(out, t).expect("write dump");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            if tcx.dcx().has_errors().is_none() {
                let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
                let kind = if tcx.crate_types().contains(&rustc_session_crate_type_exe()) { "-bin" } else { "" };
                dump(tcx, &format!("{o}/{name}{kind}.json"));
            }
        }
        rustc_driver::Compilation::Continue
    }
}
fn rustc_session_crate_type_exe() -> rustc_structures::CrateType {
    rustc_structures::CrateType::Executable
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_build = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "build_script_build");
    let out = if is_build { std::env::var("MIRDUMP_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out })).exit_process();
}
