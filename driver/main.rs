// MIR fact extractor. Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`:
// compiles the crate exactly as the build does and writes, as JSON, the
// pre-optimisation MIR of every function instance of the crate (generic functions
// monomorphised as called, closures and async bodies included, callees resolved),
// plus the bodies of the small core helpers they call (Option/Result/... combinators)
// and the layout of every type mentioned.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;

extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

/// operations only allowed in unsafe code, outside code that macros of other crates put in
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    tab: &'tcx ty::TypeckResults<'tcx>,
    found: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind as K;
        let foreign = {
            let x = e.span.ctxt().outer_expn_data();
            e.span.from_expansion() && x.macro_def_id.map_or(true, |d| !d.is_local())
        };
        if !foreign {
            let op = match e.kind {
                K::Unary(rustc_hir::UnOp::Deref, x) if self.tab.expr_ty_adjusted(x).is_raw_ptr() => Some("*pointer".to_string()),
                K::Field(x, _) if self.tab.expr_ty_adjusted(x).is_union() => Some("union field".to_string()),
                K::InlineAsm(_) => Some("asm".to_string()),
                _ => {
                    let d = match e.kind {
                        K::MethodCall(..) => self.tab.type_dependent_def_id(e.hir_id),
                        K::Path(ref q) => self.tab.qpath_res(q, e.hir_id).opt_def_id(),
                        _ => None,
                    };
                    match d {
                        Some(d) if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                            && self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() => Some(with_no_trimmed_paths!(self.tcx.def_path_str(d))),
                        Some(d) if matches!(self.tcx.def_kind(d), DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }) => Some("static mut".to_string()),
                        _ => None,
                    }
                }
            };
            if let Some(o) = op {
                self.found.push(o);
            }
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    bodies: HashMap<LocalDefId, Body<'tcx>>,
    types: BTreeMap<String, String>,
    seen_inst: HashSet<String>,
    queue: VecDeque<Instance<'tcx>>,
    out: BTreeMap<String, String>,
}

fn ext_inline(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::",
        "core::ops::control_flow::", "std::ops::ControlFlow", "core::convert::", "std::convert::",
        "core::bool::", "core::cmp::", "std::cmp::", "core::ops::function::",
        "core::task::poll", "std::task::Poll", "core::mem::take", "std::mem::take",
    ];
    P.iter().any(|p| path.starts_with(p) || path.starts_with(&format!("<{p}")))
        || path.contains(" as std::ops::Try>") || path.contains(" as std::ops::FromResidual")
        || path.contains("as std::convert::")
        || path.contains("bool>::then") || path.contains("bool::then")
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = with_no_trimmed_paths!(t.to_string());
        let s = match t.kind() {
            ty::Closure(d, _) => format!("closure:{}", self.defkey(*d)),
            ty::Coroutine(d, _) => format!("coroutine:{}", self.defkey(*d)),
            ty::FnDef(d, a) => format!("fndef:{}", with_no_trimmed_paths!(self.tcx.def_path_str_with_args(*d, a.skip_binder()))),
            _ => s,
        };
        if !self.types.contains_key(&s) {
            self.types.insert(s.clone(), "null".into());
            let d = self.tydesc(t);
            self.types.insert(s.clone(), d);
        }
        s
    }
    fn defkey(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
            + &(if self.tcx.is_closure_like(d) {
                let sp = self.tcx.def_span(d);
                let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
                format!("@{}:{}", lo.line, lo.col.0)
            } else {
                String::new()
            })
    }
    fn tydesc(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.into(),
            ty::Char => r#"{"k":"char"}"#.into(),
            ty::Int(i) => format!(r#"{{"k":"int","signed":true,"bits":{}}}"#, i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!(r#"{{"k":"int","signed":false,"bits":{}}}"#, i.bit_width().unwrap_or(64)),
            ty::Str => r#"{"k":"str"}"#.into(),
            ty::Never => r#"{"k":"never"}"#.into(),
            ty::Ref(_, i, m) => {
                let x = self.tystr(i);
                format!(r#"{{"k":"ref","mut":{},"to":{}}}"#, m.is_mut(), js(&x))
            }
            ty::RawPtr(i, m) => {
                let x = self.tystr(i);
                format!(r#"{{"k":"ptr","mut":{},"to":{}}}"#, m.is_mut(), js(&x))
            }
            ty::Slice(i) => {
                let x = self.tystr(i);
                format!(r#"{{"k":"slice","of":{}}}"#, js(&x))
            }
            ty::Array(i, n) => {
                let x = self.tystr(i);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!(r#"{{"k":"array","of":{},"n":{}}}"#, js(&x), n)
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| { let s = self.tystr(x); js(&s) }).collect();
                format!(r#"{{"k":"tuple","elems":{}}}"#, arr(v))
            }
            ty::Adt(def, args) => {
                let path = with_no_trimmed_paths!(tcx.def_path_str(def.did()));
                let targs: Vec<String> = args.types().map(|x| { let s = self.tystr(x); js(&s) }).collect();
                let detailed = def.did().is_local()
                    || (def.is_enum() && (path.starts_with("std::") || path.starts_with("core::")));
                let mut vs = Vec::new();
                if detailed {
                    for (i, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, i).val as i128 } else { 0 };
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.normalize_erasing_regions(self.env, ft);
                            let s = self.tystr(ft);
                            format!(r#"{{"n":{},"t":{}}}"#, js(f.name.as_str()), js(&s))
                        }).collect();
                        vs.push(format!(r#"{{"n":{},"d":{},"f":{}}}"#, js(v.name.as_str()), discr, arr(fs)));
                    }
                }
                let mut dropi = "null".to_string();
                if def.did().is_local() {
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d.did, args) {
                            dropi = js(&self.want(inst));
                        }
                    }
                }
                format!(r#"{{"k":"adt","path":{},"enum":{},"local":{},"args":{},"variants":{},"drop":{}}}"#,
                    js(&path), def.is_enum(), def.did().is_local(), arr(targs), arr(vs), dropi)
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| { let s = self.tystr(x); js(&s) }).collect();
                let inst = Instance::new_raw(d, args);
                let id = self.want(inst);
                let kind = format!("{:?}", args.as_closure().kind());
                format!(r#"{{"k":"closure","inst":{},"kind":{},"upvars":{}}}"#, js(&id), js(&kind), arr(up))
            }
            ty::Coroutine(d, args) => {
                let up: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|x| { let s = self.tystr(x); js(&s) }).collect();
                let local = d.is_local();
                let id = if local { let inst = Instance::new_raw(d, args); self.want(inst) } else { self.defkey(d) };
                format!(r#"{{"k":"coroutine","inst":{},"local":{},"upvars":{}}}"#, js(&id), local, arr(up))
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder());
                format!(r#"{{"k":"fndef","callee":{}}}"#, c)
            }
            ty::FnPtr(..) => r#"{"k":"fnptr"}"#.into(),
            ty::Dynamic(..) => r#"{"k":"dyn"}"#.into(),
            _ => r#"{"k":"other"}"#.into(),
        }
    }
    fn inst_id(&self, i: Instance<'tcx>) -> String {
        let d = i.def_id();
        let base = self.defkey(d);
        if self.tcx.is_closure_like(d) {
            // parent substitutions distinguish monomorphic copies
            let p: Vec<String> = i.args.types().map(|t| with_no_trimmed_paths!(t.to_string())).collect();
            let mut h: u64 = 1469598103934665603;
            for b in p.join(",").bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
            return if self.tcx.generics_of(self.tcx.typeck_root_def_id(d)).requires_monomorphization(self.tcx) { format!("{base}#{h:x}") } else { base };
        }
        let a: Vec<String> = i.args.types().map(|t| with_no_trimmed_paths!(t.to_string())).collect();
        if a.is_empty() { base } else { format!("{base}::<{}>", a.join(", ")) }
    }
    /// Queue a body for extraction (if it has one we want) and give its id.
    fn want(&mut self, i: Instance<'tcx>) -> String {
        let id = self.inst_id(i);
        if self.seen_inst.insert(id.clone()) {
            self.queue.push_back(i);
        }
        id
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = with_no_trimmed_paths!(tcx.def_path_str(d));
        let targs: Vec<String> = args.types().map(|x| { let s = self.tystr(x); js(&s) }).collect();
        let trait_ = tcx.trait_of_assoc(d).map(|t| with_no_trimmed_paths!(tcx.def_path_str(t)));
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        let (mut rpath, mut inst, mut kind, mut local) = (path.clone(), None, "item".to_string(), d.is_local());
        if is_fn {
            let nargs = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args));
            if let Ok(Some(r)) = Instance::try_resolve(tcx, self.env, d, nargs) {
                let rd = r.def_id();
                rpath = self.defkey(rd);
                local = rd.is_local();
                match r.def {
                    InstanceKind::Item(_) => {
                        if rd.is_local() { inst = Some(self.want(r)); }
                        else if (ext_inline(&rpath) || ext_inline(&path)) && tcx.is_mir_available(rd) { inst = Some(self.want(r)); }
                    }
                    InstanceKind::Intrinsic(_) => kind = "intrinsic".into(),
                    InstanceKind::Virtual(..) => kind = "virtual".into(),
                    _ => kind = format!("{:?}", r.def).split('(').next().unwrap_or("shim").to_string(),
                }
            } else { kind = "unresolved".into(); }
        } else { kind = "ctor".into(); }
        let ret = if is_fn {
            let t = tcx.mk_ty_from_kind(ty::FnDef(d, ty::Binder::dummy(args)));
            let sig = tcx.normalize_erasing_late_bound_regions(self.env, t.fn_sig(tcx));
            let s = self.tystr(sig.output());
            js(&s)
        } else { "null".into() };
        let mut ctor = "null".to_string();
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(p) == DefKind::Variant {
                let e = tcx.parent(p);
                let def = tcx.adt_def(e);
                (e, def.variant_index_with_id(p).as_usize())
            } else { (p, 0) };
            ctor = format!(r#"{{"adt":{},"v":{}}}"#, js(&with_no_trimmed_paths!(tcx.def_path_str(adt))), vi);
        }
        format!(r#"{{"path":{},"rpath":{},"args":{},"trait":{},"inst":{},"kind":{},"local":{},"ctor":{},"ret":{}}}"#,
            js(&path), js(&rpath), arr(targs), trait_.map(|x| js(&x)).unwrap_or("null".into()),
            inst.map(|x| js(&x)).unwrap_or("null".into()), js(&kind), local, ctor, ret)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let pr: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => r#"["deref"]"#.to_string(),
            ProjectionElem::Field(f, t) => { let s = self.tystr(t); format!(r#"["field",{},{}]"#, f.as_usize(), js(&s)) }
            ProjectionElem::Index(l) => format!(r#"["index",{}]"#, l.as_usize()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["cidx",{},{},{}]"#, offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!(r#"["subslice",{},{},{}]"#, from, to, from_end),
            ProjectionElem::Downcast(_, v) => format!(r#"["down",{}]"#, v.as_usize()),
            _ => r#"["other"]"#.to_string(),
        }).collect();
        format!(r#"{{"l":{},"p":{}}}"#, p.local.as_usize(), arr(pr))
    }
    fn read_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let b = m.inner();
                if off + len > b.len() { return None; }
                Some(b.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c.ty()));
        let tys = self.tystr(t);
        let mut v = "null".to_string();
        let mut stat = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            stat = js(&self.defkey(u.def));
        }
        if !matches!(t.kind(), ty::FnDef(..)) {
            if let Ok(cv) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match cv {
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let val: i128 = if matches!(t.kind(), ty::Int(_)) { i.to_int(i.size()) } else { bits as i128 };
                        v = format!(r#"{{"int":{}}}"#, val);
                        if let ty::Adt(d, _) = t.kind() { if d.is_enum() { v = format!(r#"{{"rawadt":{}}}"#, val); } }
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, n) = inner.kind() {
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                    if let (Some(n), aid) = (n.try_to_target_usize(tcx), prov.alloc_id()) {
                                        if let Some(b) = self.read_bytes(aid, off.bytes_usize(), n as usize) {
                                            v = format!(r#"{{"bytes":{}}}"#, arr(b.iter().map(|x| x.to_string())));
                                        }
                                    }
                                }
                            }
                        }
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(GlobalAlloc::Static(d)) => stat = js(&self.defkey(d)),
                            _ => {}
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if matches!(inner.kind(), ty::Str) {
                                if let Some(b) = self.read_bytes(alloc_id, 0, meta as usize) {
                                    v = format!(r#"{{"str":{}}}"#, js(&String::from_utf8_lossy(&b)));
                                }
                            } else if let Some(b) = self.read_bytes(alloc_id, 0, meta as usize) {
                                v = format!(r#"{{"bytes":{}}}"#, arr(b.iter().map(|x| x.to_string())));
                            }
                        }
                    }
                    ConstValue::ZeroSized => v = r#"{"zst":1}"#.into(),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes_usize()).unwrap_or(0);
                        if sz <= 64 { if let Some(b) = self.read_bytes(alloc_id, offset.bytes_usize(), sz) {
                            v = format!(r#"{{"raw":{}}}"#, arr(b.iter().map(|x| x.to_string())));
                        } }
                    }
                }
            }
        }
        format!(r#"{{"t":{},"v":{},"def":{}}}"#, js(&tys), v, stat)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"c":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"m":{}}}"#, self.place(p)),
            Operand::Constant(c) => format!(r#"{{"k":{}}}"#, self.konst(&c.const_)),
            _ => r#"{"rt":1}"#.into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!(r#"["repeat",{},{}]"#, self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!(r#"["ref",{},true]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let s = self.tystr(*t);
                let kk = format!("{:?}", k);
                format!(r#"["cast",{},{},{}]"#, js(&kk), self.operand(o), js(&s))
            }
            Rvalue::BinaryOp(b, x) => format!(r#"["bin",{},{},{}]"#, js(&format!("{:?}", b)), self.operand(&x.0), self.operand(&x.1)),
            Rvalue::UnaryOp(u, o) => format!(r#"["un",{},{}]"#, js(&format!("{:?}", u)), self.operand(o)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",{{"c":{}}}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env, t);
                        let s = self.tystr(t);
                        format!(r#"["adt",{},{},{}]"#, js(&s), v.as_usize(), active.is_some())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let s = self.tystr(t);
                        format!(r#"["closure",{}]"#, js(&s))
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let s = self.tystr(t);
                        format!(r#"["coroutine",{}]"#, js(&s))
                    }
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},{}]"#, kk, arr(os))
            }
            Rvalue::ThreadLocalRef(_) => r#"["other","tls"]"#.into(),
            _ => format!(r#"["other",{}]"#, js(&format!("{:?}", r))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sp = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn body(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let id = self.inst_id(inst);
        let d = inst.def_id();
        let local = d.is_local();
        let raw: Body<'tcx> = if let Some(l) = d.as_local() {
            match self.bodies.get(&l) { Some(b) => b.clone(), None => return }
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let b: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw));
        let locals: Vec<String> = b.local_decls.iter().map(|x| { let s = self.tystr(x.ty); js(&s) }).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!(r#"[{},{}]"#, js(v.name.as_str()), self.place(&p)));
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let r = self.rvalue(&x.1);
                        st.push(format!(r#"["a",{},{},{}]"#, self.place(&x.0), r, js(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(r#"["sd",{},{}]"#, self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!(r#"["live",{}]"#, l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(_) = **i {} else { st.push(r#"["intrinsic"]"#.into()); }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(r#"["switch",{},{},{}]"#, self.operand(discr), arr(v), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{}]"#, self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.const_fn_def() {
                        Some((d, a)) => self.callee(d, a),
                        None => format!(r#"{{"dyn":{}}}"#, self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(r#"["call",{},{},{},{}]"#, f, arr(a), self.place(destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(r#"["bounds",{},{}]"#, self.operand(len), self.operand(index)),
                        AssertKind::Overflow(op, x, y) => format!(r#"["overflow",{},{},{}]"#, js(&format!("{:?}", op)), self.operand(x), self.operand(y)),
                        AssertKind::OverflowNeg(x) => format!(r#"["neg",{}]"#, self.operand(x)),
                        AssertKind::DivisionByZero(x) => format!(r#"["div0",{}]"#, self.operand(x)),
                        AssertKind::RemainderByZero(x) => format!(r#"["rem0",{}]"#, self.operand(x)),
                        o => format!(r#"["other",{}]"#, js(&format!("{:?}", std::mem::discriminant(o)))),
                    };
                    format!(r#"["assert",{},{},{},{}]"#, self.operand(cond), expected, m, target.as_usize())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } =>
                    format!(r#"["yield",{},{},{}]"#, self.operand(value), resume.as_usize(), self.place(resume_arg)),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => r#"["resume"]"#.into(),
                _ => r#"["other"]"#.into(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{},"sp":{},"cleanup":{}}}"#, arr(st), ts, js(&sp), bb.is_cleanup));
        }
        let kind = if tcx.is_coroutine(d) { "coroutine" } else if tcx.is_closure_like(d) { "closure" } else { "fn" };
        let unsafe_ = local && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let o = format!(r#"{{"def":{},"path":{},"local":{},"kind":{},"argc":{},"spread":{},"unsafe":{},"span":{},"locals":{},"names":{},"blocks":{}}}"#,
            js(&self.defkey(d)), js(&with_no_trimmed_paths!(tcx.def_path_str(d))), local, js(kind), b.arg_count,
            b.spread_arg.map(|x| x.as_usize() as i64).unwrap_or(-1), unsafe_,
            js(&self.span(tcx.def_span(d))), arr(locals), arr(names), arr(blocks));
        self.out.insert(id, o);
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        // no optimisation of the facts, keep overflow checks as in the dev profile
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = HashMap::new();
        for l in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(l), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                bodies.insert(l, tcx.mir_built(l).borrow().clone());
            }
        }
        tcx.ensure_ok().analysis(());
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), bodies, types: BTreeMap::new(),
            seen_inst: HashSet::new(), queue: VecDeque::new(), out: BTreeMap::new() };
        let mut roots: Vec<LocalDefId> = cx.bodies.keys().copied().collect();
        roots.sort_by_key(|l| tcx.def_span(l.to_def_id()).lo());
        let mut allfns = Vec::new();
        for l in &roots {
            let d = l.to_def_id();
            let mut u = Unsafe { tcx, tab: tcx.typeck(*l), found: Vec::new() };
            if let Some(b) = tcx.hir_maybe_body_owned_by(*l) {
                rustc_hir::intravisit::Visitor::visit_body(&mut u, b);
            }
            allfns.push(format!("[{},{},{}]", js(&cx.defkey(d)), js(&cx.span(tcx.def_span(d))), arr(u.found.iter().map(|x| js(x)).collect::<Vec<_>>())));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && !tcx.generics_of(d).requires_monomorphization(tcx) {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                cx.want(Instance::new_raw(d, args));
            }
        }
        while let Some(i) = cx.queue.pop_front() {
            cx.body(i);
        }
        // statics, from HIR
        let mut statics = Vec::new();
        for id in tcx.hir_free_items() {
            let l = id.owner_id.def_id;
            if let DefKind::Static { .. } = tcx.def_kind(l) {
                let t = tcx.type_of(l).instantiate_identity();
                let t = tcx.normalize_erasing_regions(cx.env, t);
                let s = cx.tystr(t);
                statics.push(format!("[{},{}]", js(&cx.defkey(l.to_def_id())), js(&s)));
            }
        }
        while let Some(i) = cx.queue.pop_front() {
            cx.body(i);
        }
        let mut o = String::from("{\"instances\":{");
        o.push_str(&cx.out.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
        o.push_str("},\n\"types\":{");
        o.push_str(&cx.types.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
        let _ = write!(o, "}},\n\"statics\":{},\n\"fns\":{}}}\n", arr(statics), arr(allfns));
        let path = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        let test = tcx.sess.opts.test;
        if !test {
            std::fs::write(&path, o).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    // argv: <self> <rustc> args...   (RUSTC_WORKSPACE_WRAPPER convention)
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let is_target = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && *b == want);
    if is_target {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl rustc_driver_impl::Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}
