// Dumps the type-checked MIR of one crate as JSON (one file per compiled lib crate).
// Used as RUSTC_WORKSPACE_WRAPPER; the crate named in MIRDUMP_CRATE is dumped to MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let cr = self.tcx.crate_name(d.krate);
        format!("{}{}", cr, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        list(a.iter().filter_map(|g| match g.kind() {
            GenericArgKind::Type(t) => Some(self.ty(t)),
            GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"s\":{}}}", esc(&format!("{}", c)))),
            _ => None,
        }))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, a) => format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", esc(&self.path(d.did())), self.args(a)),
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(*t), esc(&format!("{}", n))),
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", list(ts.iter().map(|t| self.ty(t)))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::FnDef(d, a) => format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{}}}", esc(&self.path(*d)), self.args(a.skip_binder())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", esc(&self.path(*d))),
            ty::Dynamic(p, ..) => format!("{{\"k\":\"dyn\",\"d\":{}}}", esc(&p.principal_def_id().map(|d| self.path(d)).unwrap_or_default())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
        }
    }
    fn fn_const(&self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"k\":\"fn\",\"d\":{},\"a\":{}", esc(&self.path(d)), self.args(a));
        let a2 = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a2) {
            let kind = match i.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(..) => "intrinsic",
                _ => "shim",
            };
            let _ = write!(s, ",\"r\":{},\"ra\":{},\"rk\":\"{}\"", esc(&self.path(i.def_id())), self.args(i.args), kind);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", esc(&self.path(tr)));
        }
        s.push('}');
        s
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fn_const(*d, a.skip_binder(), env);
        }
        let tys = self.ty(t);
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(named, ",\"n\":{},\"na\":{}", esc(&self.path(u.def)), self.args(u.args));
            if let Some(p) = u.promoted {
                let _ = write!(named, ",\"p\":{}", p.as_usize());
            }
        }
        let mut val = String::new();
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            self.const_val(v, t, &mut val);
        }
        format!("{{\"k\":\"c\",\"t\":{}{}{},\"s\":{}}}", tys, named, val, esc(&format!("{}", c.const_)))
    }
    fn const_val(&self, v: ConstValue, t: Ty<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(s) => {
                if let Ok(i) = s.try_to_scalar_int() {
                    let bits = i.to_bits(i.size());
                    let sv = if matches!(t.kind(), ty::Int(_)) {
                        format!("{}", i.size().sign_extend(bits))
                    } else {
                        format!("{}", bits)
                    };
                    let _ = write!(out, ",\"v\":\"{}\"", sv);
                } else if let Some(b) = self.deref_bytes(v, t) {
                    out.push_str(&b);
                }
            }
            ConstValue::ZeroSized => out.push_str(",\"z\":1"),
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(out, ",\"b\":{}", list(b.iter().map(|x| x.to_string())));
                        }
                    }
                }
            }
            ConstValue::Indirect { .. } => {
                let mut s = String::new();
                if self.valtree(v, t, &mut s) {
                    let _ = write!(out, ",\"arr\":{}", s);
                }
            }
        }
    }
    // &[u8; N] constants
    fn deref_bytes(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let ty::Ref(_, inner, _) = t.kind() {
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if let Some(ga) = tcx.try_get_global_alloc(aid) {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(_) = ga {
                        let mut s = String::new();
                        let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                        if self.valtree(iv, *inner, &mut s) {
                            return Some(format!(",\"darr\":{}", s));
                        }
                    }
                }
            }
        }
        None
    }
    fn valtree(&self, v: ConstValue, t: Ty<'tcx>, out: &mut String) -> bool {
        // only flat arrays of integers
        let tcx = self.tcx;
        if let ty::Array(e, n) = t.kind() {
            let Some(n) = n.try_to_target_usize(tcx) else { return false };
            let sz = match e.kind() {
                ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                _ => return false,
            };
            if let ConstValue::Indirect { alloc_id, offset } = v {
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let st = offset.bytes() as usize;
                    let len = (n * sz) as usize;
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + len);
                    let vals = bytes.chunks(sz as usize).map(|c| {
                        let mut x: u128 = 0;
                        for (i, b) in c.iter().enumerate() {
                            x |= (*b as u128) << (8 * i);
                        }
                        x.to_string()
                    });
                    out.push_str(&list(vals));
                    return true;
                }
            }
        }
        false
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            let base = PlaceRef { local: p.local, projection: &p.projection[..i] };
            let bt = base.ty(body, tcx);
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match bt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = d.variant(v);
                            (self.path(d.did()), vd.fields[f].name.to_string())
                        }
                        ty::Closure(d, _) => (self.path(*d), format!("{}", f.as_usize())),
                        _ => (String::new(), format!("{}", f.as_usize())),
                    };
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_usize(), esc(&owner), esc(&name));
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                _ => o.push_str(",\"?\""),
            }
        }
        o.push(']');
        o
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => format!("{{\"k\":\"rt\",\"s\":{}}}", esc(&format!("{:?}", op))),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, body, env)),
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p, body)),
            Rvalue::RawPtr(k, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(p, body)),
            Rvalue::Cast(k, o, t) => format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"t\":{},\"ft\":{}}}", esc(&format!("{:?}", k)), self.operand(o, body, env), self.ty(*t), self.ty(o.ty(body, tcx))),
            Rvalue::BinaryOp(b, ops) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", b)), self.operand(&ops.0, body, env), self.operand(&ops.1, body, env)),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", u)), self.operand(o, body, env)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p, body), self.ty(p.ty(body, tcx).ty)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, body, env), esc(&format!("{}", n))),
            Rvalue::Aggregate(ak, ops) => {
                let ops = list(ops.iter().map(|o| self.operand(o, body, env)));
                match &**ak {
                    AggregateKind::Adt(d, v, a, _, _) => format!("{{\"k\":\"adt\",\"d\":{},\"v\":{},\"a\":{},\"ops\":{}}}", esc(&self.path(*d)), v.as_usize(), self.args(a), ops),
                    AggregateKind::Tuple => format!("{{\"k\":\"tuple\",\"ops\":{}}}", ops),
                    AggregateKind::Array(_) => format!("{{\"k\":\"array\",\"ops\":{}}}", ops),
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{},\"ops\":{}}}", esc(&self.path(*d)), ops),
                    AggregateKind::RawPtr(..) => format!("{{\"k\":\"rawptr\",\"ops\":{}}}", ops),
                    _ => format!("{{\"k\":\"agg?\",\"ops\":{}}}", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"cp\",\"p\":{}}}}}", self.place(p, body)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        esc(&format!("{}:{}", f, lo.line))
    }
    fn body(&self, did: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o = String::new();
        let _ = write!(o, "{{\"d\":{},\"argc\":{},\"span\":{}", esc(&self.path(did)), body.arg_count, self.span(body.span));
        if let Some(p) = promoted {
            let _ = write!(o, ",\"promoted\":{}", p);
        }
        // generics
        let g = tcx.generics_of(did);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        let _ = write!(o, ",\"gen\":{}", list(names));
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let _ = write!(o, ",\"locals\":{}", list(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!("{{\"t\":{},\"n\":{}}}", self.ty(d.ty), names[l.as_usize()].as_ref().map(|n| esc(n)).unwrap_or("null".into()))
        })));
        let blocks = list(body.basic_blocks.iter().map(|bb| {
            let stmts = list(bb.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(a) => Some(format!("{{\"k\":\"=\",\"p\":{},\"r\":{},\"sp\":{}}}", self.place(&a.0, body), self.rvalue(&a.1, body, env), self.span(s.source_info.span))),
                StatementKind::SetDiscriminant { place, variant_index } => Some(format!("{{\"k\":\"setd\",\"p\":{},\"v\":{}}}", self.place(place, body), variant_index.as_usize())),
                StatementKind::StorageDead(l) => Some(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize())),
                StatementKind::Intrinsic(i) => Some(format!("{{\"k\":\"intr\",\"s\":{}}}", esc(&format!("{:?}", i)))),
                _ => None,
            }));
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"k\":\"switch\",\"o\":{},\"ty\":{},\"ts\":{},\"else\":{}",
                    self.operand(discr, body, env),
                    self.ty(discr.ty(body, tcx)),
                    list(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))),
                    targets.otherwise().as_usize()
                ),
                TerminatorKind::Return => "{\"k\":\"ret\"".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}", self.place(place, body), self.ty(place.ty(body, tcx).ty), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"k\":\"call\",\"f\":{},\"args\":{},\"at\":{},\"d\":{},\"dt\":{},\"t\":{}",
                    self.operand(func, body, env),
                    list(args.iter().map(|a| self.operand(&a.node, body, env))),
                    list(args.iter().map(|a| self.ty(a.node.ty(body, tcx)))),
                    self.place(destination, body),
                    self.ty(destination.ty(body, tcx).ty),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!("{{\"k\":\"assert\",\"o\":{},\"e\":{},\"m\":{},\"t\":{}", self.operand(cond, body, env), expected, esc(&format!("{:?}", msg)), target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                k => format!("{{\"k\":\"other\",\"s\":{}", esc(&format!("{:?}", k))),
            };
            format!("{{\"s\":{},\"t\":{},\"sp\":{}}},\"cl\":{}}}", stmts, ts, sp, bb.is_cleanup)
        }));
        let _ = write!(o, ",\"bbs\":{}}}", blocks);
        o
    }
}

fn implements(tcx: TyCtxt<'_>, did: DefId, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let env = TypingEnv::post_analysis(tcx, did);
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, [ty], penv).must_apply_modulo_regions()
}
fn may_implement(tcx: TyCtxt<'_>, did: DefId, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let env = TypingEnv::post_analysis(tcx, did);
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, [ty], penv).may_apply()
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let is_test = tcx.sess.is_test_crate();
        let is_lib = tcx.crate_types().iter().any(|t| format!("{:?}", t) != "Executable");
        if tcx.crate_name(LOCAL_CRATE).as_str() != want || is_test || !is_lib {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut fns = vec![];
        let mut fails = vec![];
        let ev = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let b = tcx.optimized_mir(did);
                let mut s = cx.body(did, b, None);
                s.pop();
                let name = if dk == DefKind::Closure { "{closure}".to_string() } else { tcx.item_name(did).to_string() };
                let _ = write!(s, ",\"name\":{},\"kind\":\"{:?}\"", esc(&name), dk);
                let _ = write!(s, ",\"pub\":{}", ev.is_reachable(*ld));
                if dk == DefKind::AssocFn {
                    let p = tcx.parent(did);
                    if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"self\":{}", cx.ty(st));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            let _ = write!(s, ",\"trait\":{},\"targs\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                            if let Some(t) = tcx.trait_item_of(did) {
                                let _ = write!(s, ",\"titem\":{}", esc(&cx.path(t)));
                            }
                        }
                    } else {
                        let _ = write!(s, ",\"intrait\":{}", esc(&cx.path(p)));
                    }
                }
                let proms = tcx.promoted_mir(did);
                let ps = list(proms.iter_enumerated().map(|(i, b)| cx.body(did, b, Some(i.as_usize()))));
                let _ = write!(s, ",\"proms\":{}", ps);
                s.push('}');
                s
            }));
            match r {
                Ok(s) => fns.push(s),
                Err(_) => fails.push(esc(&cx.path(did))),
            }
        }
        // ADTs, consts, traits
        let mut adts = vec![];
        let mut consts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let vs = list(a.variants().iter().map(|v| {
                        format!("{{\"n\":{},\"f\":{}}}", esc(v.name.as_str()), list(v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("{{\"n\":{},\"t\":{}}}", esc(f.name.as_str()), cx.ty(t))
                        })))
                    }));
                    let g = tcx.generics_of(did);
                    let gn = list((0..g.count()).filter_map(|i| {
                        let p = g.param_at(i, tcx);
                        if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { None } else { Some(esc(p.name.as_str())) }
                    }));
                    let isend = send.map(|t| may_implement(tcx, did, t));
                    let isync = sync.map(|t| may_implement(tcx, did, t));
                    let csend = send.map(|t| implements(tcx, did, t));
                    adts.push(format!("{{\"d\":{},\"gen\":{},\"vs\":{},\"pub\":{},\"enum\":{},\"may_send\":{},\"may_sync\":{},\"send\":{},\"span\":{}}}", esc(&cx.path(did)), gn, vs, ev.is_reachable(ld), a.is_enum(),
                        isend.map(|b| b.to_string()).unwrap_or("null".into()), isync.map(|b| b.to_string()).unwrap_or("null".into()), csend.map(|b| b.to_string()).unwrap_or("null".into()), cx.span(tcx.def_span(did))));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut s = String::new();
                    if tcx.generics_of(did).count() == 0 && !matches!(tcx.def_kind(did), DefKind::Static { .. }) {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            cx.const_val(v, t, &mut s);
                        }
                    }
                    consts.push(format!("{{\"d\":{},\"t\":{}{},\"span\":{}}}", esc(&cx.path(did)), cx.ty(t), s, cx.span(tcx.def_span(did))));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = tr.self_ty();
                    let items = list(tcx.associated_items(did).in_definition_order().filter_map(|it| {
                        it.trait_item_def_id().map(|t| format!("[{},{}]", esc(&cx.path(t)), esc(&cx.path(it.def_id))))
                    }));
                    let g = tcx.generics_of(did);
                    let gn = list((0..g.count()).filter_map(|i| {
                        let p = g.param_at(i, tcx);
                        if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { None } else { Some(esc(p.name.as_str())) }
                    }));
                    let neg = matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative);
                    impls.push(format!("{{\"tr\":{},\"ta\":{},\"self\":{},\"items\":{},\"gen\":{},\"neg\":{},\"span\":{}}}", esc(&cx.path(tr.def_id)), cx.args(tr.args), cx.ty(st), items, gn, neg, cx.span(tcx.def_span(did))));
                }
                DefKind::Trait { .. } => {
                    let items = list(tcx.associated_items(did).in_definition_order().filter_map(|it| {
                        if it.is_fn() {
                            Some(format!("{{\"d\":{},\"n\":{},\"def\":{}}}", esc(&cx.path(it.def_id)), esc(tcx.item_name(it.def_id).as_str()), it.defaultness(tcx).has_value()))
                        } else { None }
                    }));
                    traits.push(format!("{{\"d\":{},\"items\":{},\"pub\":{}}}", esc(&cx.path(did)), items, ev.is_reachable(ld)));
                }
                _ => {}
            }
        }
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let s = format!("{{\"crate\":{},\"fns\":[\n{}\n],\"fails\":[{}],\"adts\":[\n{}\n],\"consts\":[\n{}\n],\"impls\":[\n{}\n],\"traits\":[\n{}\n]}}\n", esc(&want), fns.join(",\n"), fails.join(","), adts.join(",\n"), consts.join(",\n"), impls.join(",\n"), traits.join(",\n"));
        std::fs::write(&out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".to_string());
    args.push("-Zalways-encode-mir".to_string());
    args.push("-Cdebug-assertions=off".to_string());
    args.push("-Coverflow-checks=off".to_string());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
