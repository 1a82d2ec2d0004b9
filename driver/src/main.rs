//! rustc driver that dumps the facts the checks in /verif/checks need: the MIR of every local
//! body (closures and promoteds included) with resolved callees, the local type definitions with
//! their serde attributes, and the local trait implementations.  It runs no code of the analysed
//! crate; it is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct J(String);
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    format!(
        "{{{}}}",
        v.into_iter()
            .map(|(k, v)| format!("\"{}\":{}", k, v))
            .collect::<Vec<_>>()
            .join(",")
    )
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    prefix: String,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
}
impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let krate = if d.is_local() {
            self.prefix.clone()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        };
        format!("{}{}", krate, p.to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let root = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        let mut mac = String::new();
        let mut e = s;
        while e.from_expansion() {
            let d = e.ctxt().outer_expn_data();
            mac = d.kind.descr().to_string();
            e = d.call_site;
        }
        arr(vec![esc(&name), loc.line.to_string(), esc(&mac)])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        if let Some(i) = self.tys.get(&t) {
            return i.to_string();
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let j = self.ty_inner(t);
        self.ty_json[i] = j;
        i.to_string()
    }
    fn targs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        arr(v)
    }
    fn ty_inner(&mut self, t: Ty<'tcx>) -> String {
        let k = |s: &str| esc(s);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                obj(vec![("k", k("prim")), ("n", esc(&t.to_string()))])
            }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let a = self.targs(a);
                obj(vec![("k", k("adt")), ("p", esc(&p)), ("n", esc(self.tcx.item_name(d.did()).as_str())), ("a", a)])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                obj(vec![("k", k("ref")), ("m", m.is_mut().to_string()), ("t", t)])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                obj(vec![("k", k("ptr")), ("m", m.is_mut().to_string()), ("t", t)])
            }
            ty::Tuple(l) => {
                let v = l.iter().map(|t| self.ty(t)).collect();
                obj(vec![("k", k("tuple")), ("a", arr(v))])
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                obj(vec![("k", k("slice")), ("t", t)])
            }
            ty::Array(t, _) => {
                let t = self.ty(*t);
                obj(vec![("k", k("array")), ("t", t)])
            }
            ty::Closure(d, a) => {
                let p = self.path(*d);
                let up: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                obj(vec![("k", k("closure")), ("p", esc(&p)), ("a", arr(up))])
            }
            ty::FnDef(d, a) => {
                let p = self.path(*d);
                let a = self.targs(a.skip_binder());
                obj(vec![("k", k("fndef")), ("p", esc(&p)), ("a", a)])
            }
            ty::Param(p) => obj(vec![("k", k("param")), ("n", esc(p.name.as_str())), ("i", p.index.to_string())]),
            ty::Dynamic(preds, ..) => {
                let n = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                obj(vec![("k", k("dyn")), ("p", esc(&n))])
            }
            ty::Alias(..) => obj(vec![("k", k("alias")), ("s", esc(&t.to_string()))]),
            _ => obj(vec![("k", k("other")), ("s", esc(&t.to_string()))]),
        }
    }
    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = vec![];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() || d.is_union() {
                                d.variant(vi).fields[f].name.to_string()
                            } else {
                                f.index().to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    arr(vec!["\"f\"".into(), esc(&name)])
                }
                ProjectionElem::Index(l) => arr(vec!["\"i\"".into(), l.index().to_string()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    arr(vec!["\"c\"".into(), offset.to_string(), from_end.to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr(vec!["\"s\"".into(), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => d.variant(vi).name.to_string(),
                        _ => n.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    arr(vec!["\"d\"".into(), esc(&name)])
                }
                _ => "\"o\"".to_string(),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        arr(vec![p.local.index().to_string(), arr(proj)])
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = String::from("null");
        let mut kind = String::from("unresolved");
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a)) {
            match inst.def {
                InstanceKind::Item(r) => {
                    res = esc(&self.path(r));
                    kind = "item".into();
                }
                InstanceKind::Virtual(r, _) => {
                    res = esc(&self.path(r));
                    kind = "virtual".into();
                }
                other => {
                    kind = format!("{:?}", other).split('(').next().unwrap_or("").to_string();
                }
            }
        }
        let (mut tr, mut selfty) = (String::from("null"), String::from("null"));
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = esc(&self.path(t));
            if a.types().next().is_some() {
                selfty = self.ty(a.type_at(0));
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate(tcx, a).skip_norm_wip();
            selfty = self.ty(st);
        }
        let ta = self.targs(a);
        let p = self.path(d);
        obj(vec![
            ("p", esc(&p)),
            ("n", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("res", res),
            ("rk", esc(&kind)),
            ("tr", tr),
            ("self", selfty),
            ("ta", ta),
            ("u", esc(&tcx.def_path_str(d))),
        ])
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return arr(vec!["\"fn\"".into(), self.fnref(*d, a.skip_binder(), env)]);
        }
        let tj = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return arr(vec![
                    "\"promoted\"".into(),
                    esc(&format!("{}::promoted[{}]", self.path(u.def), p.index())),
                    tj,
                ]);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(bits) = c.const_.try_eval_bits(tcx, env) {
                let v = if t.is_signed() {
                    let size = c.const_.try_eval_scalar_int(tcx, env).map(|s| s.size());
                    match size {
                        Some(sz) => sz.sign_extend(bits).to_string(),
                        None => bits.to_string(),
                    }
                } else {
                    bits.to_string()
                };
                if t.is_bool() {
                    return arr(vec!["\"bool\"".into(), (bits != 0).to_string(), tj]);
                }
                let mut named = String::from("null");
                if let Const::Unevaluated(u, _) = c.const_ {
                    named = esc(&self.path(u.def));
                }
                return arr(vec!["\"int\"".into(), v, tj, named]);
            }
        }
        if t.is_floating_point() {
            if let Some(bits) = c.const_.try_eval_bits(tcx, env) {
                let v = if t == tcx.types.f64 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                return arr(vec!["\"float\"".into(), esc(&format!("{:?}", v)), tj]);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return arr(vec!["\"str\"".into(), esc(&String::from_utf8_lossy(b)), tj]);
                    }
                }
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if let ty::Array(et, _) = inner.kind() {
                if *et == tcx.types.u8 {
                    if let Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) =
                        c.const_.eval(tcx, env, c.span)
                    {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                            let a = m.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            return arr(vec!["\"bytes\"".into(), esc(&h), tj]);
                        }
                    }
                }
            }
        }
        let mut named = String::from("null");
        if let Const::Unevaluated(u, _) = c.const_ {
            named = esc(&self.path(u.def));
        }
        arr(vec!["\"const\"".into(), esc(&format!("{:?}", c.const_)), tj, named])
    }
    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => arr(vec!["\"cp\"".into(), self.place(*p, body)]),
            Operand::Move(p) => arr(vec!["\"mv\"".into(), self.place(*p, body)]),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => arr(vec!["\"rt\"".into()]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let s = |x: &str| esc(x);
        match r {
            Rvalue::Use(o, ..) => arr(vec![s("use"), self.op(o, body, env)]),
            Rvalue::Repeat(o, n) => arr(vec![s("repeat"), self.op(o, body, env), esc(&n.to_string())]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                arr(vec![s("ref"), m.to_string(), self.place(*p, body)])
            }
            Rvalue::RawPtr(_, p) => arr(vec![s("ref"), "true".into(), self.place(*p, body)]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{:?}", k);
                let t = self.ty(*t);
                arr(vec![s("cast"), esc(&kk), self.op(o, body, env), t])
            }
            Rvalue::BinaryOp(b, ab) => {
                let (a, c) = (&ab.0, &ab.1);
                arr(vec![s("bin"), esc(&format!("{:?}", b)), self.op(a, body, env), self.op(c, body, env)])
            }
            Rvalue::UnaryOp(u, a) => arr(vec![s("un"), esc(&format!("{:?}", u)), self.op(a, body, env)]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(d, _) = pt.kind() {
                    if d.is_enum() {
                        for (vi, dv) in d.discriminants(self.tcx) {
                            vs.push(arr(vec![dv.val.to_string(), esc(d.variant(vi).name.as_str())]));
                        }
                    }
                }
                arr(vec![s("discr"), self.place(*p, body), arr(vs)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => arr(vec![s("array")]),
                    AggregateKind::Tuple => arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*vi);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        arr(vec![s("adt"), esc(&self.path(*d)), esc(var.name.as_str()), arr(names), ad.is_enum().to_string()])
                    }
                    AggregateKind::Closure(d, _) => arr(vec![s("closure"), esc(&self.path(*d))]),
                    AggregateKind::RawPtr(..) => arr(vec![s("rawptr")]),
                    _ => arr(vec![s("other")]),
                };
                arr(vec![s("agg"), kj, arr(v)])
            }
            Rvalue::CopyForDeref(p) => arr(vec![s("use"), arr(vec![s("cp"), self.place(*p, body)])]),
            other => arr(vec![s("other"), esc(&format!("{:?}", other))]),
        }
    }
    fn body(&mut self, id: &str, did: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.index()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(arr(vec![t, n]));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &data.statements {
                let sp = self.span(s.source_info.span);
                let j = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        Some(arr(vec![esc("="), self.place(*p, body), self.rvalue(r, body, env), sp]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pt = place.ty(&body.local_decls, tcx).ty;
                        let n = match pt.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        Some(arr(vec![esc("setd"), self.place(**place, body), esc(&n), sp]))
                    }
                    StatementKind::StorageDead(l) => Some(arr(vec![esc("dead"), l.index().to_string()])),
                    _ => None,
                };
                if let Some(j) = j {
                    st.push(j);
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![esc("goto"), target.index().to_string()]),
                TerminatorKind::FalseEdge { real_target, .. } => arr(vec![esc("goto"), real_target.index().to_string()]),
                TerminatorKind::FalseUnwind { real_target, .. } => arr(vec![esc("goto"), real_target.index().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| arr(vec![v.to_string(), b.index().to_string()]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    arr(vec![esc("switch"), self.op(discr, body, env), arr(v), targets.otherwise().index().to_string(), dt, sp])
                }
                TerminatorKind::Return => arr(vec![esc("ret")]),
                TerminatorKind::Drop { place, target, .. } => {
                    arr(vec![esc("drop"), self.place(*place, body), target.index().to_string()])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, body, env);
                    let a: Vec<String> = args.iter().map(|a| self.op(&a.node, body, env)).collect();
                    let d = self.place(*destination, body);
                    let tg = target.map(|t| t.index().to_string()).unwrap_or("null".into());
                    arr(vec![esc("call"), f, arr(a), d, tg, sp])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(60).collect();
                    arr(vec![esc("assert"), self.op(cond, body, env), expected.to_string(), target.index().to_string(), esc(&m), sp])
                }
                TerminatorKind::Unreachable => arr(vec![esc("unreachable")]),
                _ => arr(vec![esc("stop")]),
            };
            blocks.push(arr(vec![arr(st), tj]));
        }
        let def_sp = self.span(tcx.def_span(did));
        obj(vec![
            ("id", esc(id)),
            ("argc", body.arg_count.to_string()),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
            ("span", def_sp),
        ])
    }
    fn fn_meta(&mut self, did: DefId) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut v: Vec<(&'static str, String)> = vec![];
        v.push(("kind", esc(&format!("{:?}", tcx.def_kind(did)))));
        v.push(("name", esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())));
        if !tcx.is_closure_like(did) {
            v.push(("vis", tcx.visibility(did).is_public().to_string()));
            if let Some(l) = did.as_local() {
                v.push(("reach", tcx.effective_visibilities(()).is_reachable(l).to_string()));
            }
        }
        if let Some(i) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            v.push(("impl", esc(&self.path(i))));
            v.push(("self", self.ty(st)));
            if tcx.impl_is_of_trait(i) {
                let tr = tcx.impl_trait_ref(i).skip_binder();
                v.push(("trait", esc(&self.path(tr.def_id))));
            }
            v.push(("derived", tcx.is_automatically_derived(i).to_string()));
        }
        if let Some(t) = tcx.trait_of_assoc(did) {
            v.push(("of_trait", esc(&self.path(t))));
        }
        if tcx.is_closure_like(did) {
            v.push(("parent", esc(&self.path(tcx.parent(did)))));
            v.push(("root", esc(&self.path(tcx.typeck_root_def_id(did)))));
        } else {
            let g = tcx.generics_of(did);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    names.push(esc(p.name.as_str()));
                }
            }
            v.push(("gen", arr(names)));
        }
        v
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("MIRFACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let prefix = if is_bin { format!("bin_{}", krate) } else { krate.clone() };
        let mut cx = Cx { tcx, prefix: prefix.clone(), tys: HashMap::new(), ty_json: vec![] };
        let mut out = J(String::new());
        // bodies
        let mut bodies = vec![];
        for l in tcx.mir_keys(()) {
            let did = l.to_def_id();
            let k = tcx.def_kind(did);
            let id = cx.path(did);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) {
                        continue;
                    }
                    let b = tcx.optimized_mir(did);
                    let bj = cx.body(&id, did, b);
                    let mut meta = cx.fn_meta(did);
                    meta.push(("body", bj));
                    bodies.push(obj(meta));
                    let pr = tcx.promoted_mir(did);
                    for (i, pb) in pr.iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", id, i.index());
                        let bj = cx.body(&pid, did, pb);
                        bodies.push(obj(vec![("kind", esc("Promoted")), ("name", esc("")), ("body", bj)]));
                    }
                }
                _ => {}
            }
        }
        // type definitions
        let mut adts = vec![];
        let mut impls = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let did = l.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(did);
                    let p = cx.path(did);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            let vis = f.vis.is_public().to_string();
                            fs.push(obj(vec![("n", esc(f.name.as_str())), ("t", t), ("pub", vis)]));
                        }
                        vs.push(obj(vec![("n", esc(v.name.as_str())), ("f", arr(fs))]));
                    }
                    let sp = cx.span(tcx.def_span(did));
                    adts.push(obj(vec![
                        ("p", esc(&p)),
                        ("n", esc(tcx.item_name(did).as_str())),
                        ("v", arr(vs)),
                        ("span", sp),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let p = cx.path(did);
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut tr = "null".to_string();
                    if tcx.impl_is_of_trait(did) {
                        let t = tcx.impl_trait_ref(did).skip_binder();
                        tr = esc(&cx.path(t.def_id));
                    }
                    let mut items = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        if matches!(tcx.def_kind(a.def_id), DefKind::AssocFn) {
                            let n = tcx.item_name(a.def_id).to_string();
                            items.push(arr(vec![esc(&n), esc(&cx.path(a.def_id))]));
                        }
                    }
                    let derived = tcx.is_automatically_derived(did).to_string();
                    impls.push(obj(vec![("p", esc(&p)), ("self", st), ("trait", tr), ("items", arr(items)), ("derived", derived)]));
                }
                _ => {}
            }
        }
        out.0.push_str(&obj(vec![
            ("crate", esc(&prefix)),
            ("bodies", arr(bodies)),
            ("adts", arr(adts)),
            ("impls", arr(impls)),
            ("types", arr(std::mem::take(&mut cx.ty_json))),
        ]));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(format!("{}/{}.json", dir, prefix), out.0).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    // no pointer checks of the standard library in the MIR; overflow checks stay visible
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
