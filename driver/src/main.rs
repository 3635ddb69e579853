#![feature(rustc_private)]
// Facts extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER. For the crates named in
// MIRFACTS_CRATES it dumps, before any MIR optimisation, the built MIR of every body
// with resolved callees, types and evaluated constants to $MIRFACTS_OUT/<crate>.json.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_table: Vec<Value>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    let k = tcx.crate_name(d.krate).to_string();
    if d.is_local() {
        format!("{k}::{s}")
    } else {
        s
    }
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_table.len();
        self.tys.insert(t, i);
        self.ty_table.push(Value::Null);
        let s = with_no_trimmed_paths!(t.to_string());
        let mut m = Map::new();
        m.insert("s".into(), json!(s));
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                m.insert("k".into(), json!("adt"));
                m.insert("p".into(), json!(path(tcx, def.did())));
                let a = self.args(args);
                m.insert("a".into(), a);
                if self.adts.insert(def.did(), ()).is_none() {
                    self.adt_queue.push(def.did());
                }
            }
            ty::Ref(_, inner, mt) => {
                m.insert("k".into(), json!("ref"));
                m.insert("m".into(), json!(mt.is_mut()));
                let x = self.ty(*inner);
                m.insert("t".into(), json!(x));
            }
            ty::RawPtr(inner, _) => {
                m.insert("k".into(), json!("ptr"));
                let x = self.ty(*inner);
                m.insert("t".into(), json!(x));
            }
            ty::Slice(inner) => {
                m.insert("k".into(), json!("slice"));
                let x = self.ty(*inner);
                m.insert("t".into(), json!(x));
            }
            ty::Array(inner, n) => {
                m.insert("k".into(), json!("array"));
                let x = self.ty(*inner);
                m.insert("t".into(), json!(x));
                m.insert("n".into(), json!(format!("{n}")));
            }
            ty::Tuple(l) => {
                m.insert("k".into(), json!("tuple"));
                let v: Vec<_> = l.iter().map(|x| self.ty(x)).collect();
                m.insert("a".into(), json!(v));
            }
            ty::Closure(d, args) => {
                m.insert("k".into(), json!("closure"));
                m.insert("p".into(), json!(path(tcx, *d)));
                let _ = args;
            }
            ty::Coroutine(d, _) => {
                m.insert("k".into(), json!("coroutine"));
                m.insert("p".into(), json!(path(tcx, *d)));
            }
            ty::FnDef(d, args) => {
                m.insert("k".into(), json!("fndef"));
                m.insert("p".into(), json!(path(tcx, *d)));
                let a = self.args(args.no_bound_vars().unwrap());
                m.insert("a".into(), a);
            }
            ty::Alias(..) => {
                m.insert("k".into(), json!("alias"));
            }
            ty::Dynamic(..) => {
                m.insert("k".into(), json!("dyn"));
            }
            ty::Param(_) => {
                m.insert("k".into(), json!("param"));
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                m.insert("k".into(), json!("prim"));
            }
            _ => {
                m.insert("k".into(), json!("other"));
            }
        }
        self.ty_table[i] = Value::Object(m);
        i
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> Value {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(json!(self.ty(t))),
                GenericArgKind::Const(c) => v.push(json!(format!("{c}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut m = Map::new();
        m.insert("p".into(), json!(path(tcx, d)));
        let a = self.args(args);
        m.insert("a".into(), a);
        m.insert("local".into(), json!(d.is_local()));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            m.insert("trait".into(), json!(path(tcx, tr)));
            let self_ty = args.types().next();
            if let Some(st) = self_ty {
                let x = self.ty(st);
                m.insert("self".into(), json!(x));
            }
            let args = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                m.insert("r".into(), json!(path(tcx, rd)));
                m.insert("rlocal".into(), json!(rd.is_local()));
                let kind = match inst.def {
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Item(_) => "item",
                    _ => "shim",
                };
                m.insert("rk".into(), json!(kind));
                let ra = self.args(inst.args);
                m.insert("ra".into(), ra);
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let x = self.ty(st);
            m.insert("self".into(), json!(x));
        }
        Value::Object(m)
    }
    fn scalar(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Value {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => json!({"i": i.to_int(i.size()).to_string()}),
                    ty::Bool => json!({"b": bits != 0}),
                    ty::Float(ty::FloatTy::F64) => json!({"f": format!("{:?}", f64::from_bits(bits as u64))}),
                    ty::Float(ty::FloatTy::F32) => json!({"f": format!("{:?}", f32::from_bits(bits as u32))}),
                    ty::Char => json!({"c": char::from_u32(bits as u32).map(|c| c.to_string())}),
                    _ => json!({"i": bits.to_string()}),
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return json!({"str": String::from_utf8_lossy(b)});
                        }
                    }
                    return json!({"bytes": b.to_vec()});
                }
                json!({"o": "slice"})
            }
            ConstValue::ZeroSized => json!({"z": true}),
            _ => {
                // try to destructure arrays / byte arrays
                let s = format!("{}", with_no_trimmed_paths!(mir::Const::Val(v, t).to_string()));
                json!({"o": s})
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut m = Map::new();
        m.insert("t".into(), json!(ti));
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.no_bound_vars().unwrap(), env);
            m.insert("fn".into(), f);
            return json!({"const": m});
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            m.insert("def".into(), json!(path(tcx, u.def)));
            let a = self.args(u.args);
            m.insert("da".into(), a);
            if let Some(p) = u.promoted {
                m.insert("promoted".into(), json!(p.as_usize()));
            }
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                m.insert("trait".into(), json!(path(tcx, tr)));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            m.insert("tyc".into(), json!(format!("{ct}")));
        }
        let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => c.const_.eval(tcx, env, c.span).ok(),
        }));
        if let Ok(Some(v)) = val {
            let s = self.scalar(v, t);
            m.insert("v".into(), s);
        }
        json!({"const": m})
    }
    fn place(&mut self, p: &Place<'tcx>) -> Value {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(f, t) => json!({"f": f.as_usize(), "t": self.ty(t)}),
                ProjectionElem::Index(l) => json!({"ix": l.as_usize()}),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!({"ci": offset, "ml": min_length, "fe": from_end})
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    json!({"ss": [from, to], "fe": from_end})
                }
                ProjectionElem::Downcast(n, v) => {
                    json!({"dc": v.as_usize(), "n": n.map(|s| s.to_string())})
                }
                ProjectionElem::OpaqueCast(t) => json!({"oc": self.ty(t)}),
                _ => json!("?"),
            });
        }
        json!([p.local.as_usize(), pr])
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!({"cp": self.place(p)}),
            Operand::Move(p) => json!({"mv": self.place(p)}),
            Operand::Constant(c) => self.constant(c, env),
            _ => json!({"rt": true}),
        }
    }
    fn span(&self, s: rustc_span::Span) -> Value {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        json!([format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line])
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!({"k": "use", "o": self.operand(o, env)}),
            Rvalue::Repeat(o, n) => {
                json!({"k": "repeat", "o": self.operand(o, env), "n": format!("{n}")})
            }
            Rvalue::Ref(_, bk, p) => {
                let kind = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                json!({"k": "ref", "m": kind, "p": self.place(p)})
            }
            Rvalue::RawPtr(k, p) => {
                json!({"k": "rawptr", "m": format!("{k:?}"), "p": self.place(p)})
            }
            Rvalue::Cast(k, o, t) => {
                json!({"k": "cast", "ck": format!("{k:?}"), "o": self.operand(o, env), "t": self.ty(*t)})
            }
            Rvalue::BinaryOp(op, b) => {
                json!({"k": "bin", "op": format!("{op:?}"), "a": self.operand(&b.0, env), "b": self.operand(&b.1, env)})
            }
            Rvalue::UnaryOp(op, o) => {
                json!({"k": "un", "op": format!("{op:?}"), "o": self.operand(o, env)})
            }
            Rvalue::Discriminant(p) => json!({"k": "discr", "p": self.place(p)}),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<Value> = fs.iter().map(|o| self.operand(o, env)).collect();
                let mut m = Map::new();
                m.insert("k".into(), json!("agg"));
                m.insert("ops".into(), json!(ops));
                match &**k {
                    AggregateKind::Array(t) => {
                        m.insert("ak".into(), json!("array"));
                        let x = self.ty(*t);
                        m.insert("t".into(), json!(x));
                    }
                    AggregateKind::Tuple => {
                        m.insert("ak".into(), json!("tuple"));
                    }
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        m.insert("ak".into(), json!("adt"));
                        m.insert("p".into(), json!(path(self.tcx, *d)));
                        m.insert("v".into(), json!(v.as_usize()));
                        let a = self.args(args);
                        m.insert("a".into(), a);
                        if let Some(fi) = fi {
                            m.insert("fi".into(), json!(fi.as_usize()));
                        }
                        if self.adts.insert(*d, ()).is_none() {
                            self.adt_queue.push(*d);
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        m.insert("ak".into(), json!("closure"));
                        m.insert("p".into(), json!(path(self.tcx, *d)));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        m.insert("ak".into(), json!("coroutine"));
                        m.insert("p".into(), json!(path(self.tcx, *d)));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        m.insert("ak".into(), json!("closure"));
                        m.insert("p".into(), json!(path(self.tcx, *d)));
                    }
                    AggregateKind::RawPtr(..) => {
                        m.insert("ak".into(), json!("rawptr"));
                    }
                }
                Value::Object(m)
            }
            Rvalue::CopyForDeref(p) => json!({"k": "use", "o": {"cp": self.place(p)}}),
            Rvalue::Reborrow(_, m, p) => {
                json!({"k": "ref", "m": if m.is_mut() {"mut"} else {"shared"}, "p": self.place(p)})
            }
            _ => json!({"k": "other", "s": format!("{r:?}")}),
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let sp = self.span(t.source_info.span);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => json!({"k": "goto", "t": target.as_usize()}),
            TerminatorKind::SwitchInt { discr, targets } => {
                let arms: Vec<Value> = targets
                    .iter()
                    .map(|(v, b)| json!([v.to_string(), b.as_usize()]))
                    .collect();
                json!({"k": "switch", "d": self.operand(discr, env), "arms": arms, "o": targets.otherwise().as_usize()})
            }
            TerminatorKind::Return => json!({"k": "return"}),
            TerminatorKind::Unreachable => json!({"k": "unreachable"}),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                json!({"k": "resume"})
            }
            TerminatorKind::Drop { place, target, .. } => {
                json!({"k": "drop", "p": self.place(place), "t": target.as_usize()})
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<Value> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                json!({"k": "call", "f": self.operand(func, env), "args": a, "d": self.place(destination),
                       "t": target.map(|b| b.as_usize())})
            }
            TerminatorKind::TailCall { func, args, .. } => {
                let a: Vec<Value> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                json!({"k": "tailcall", "f": self.operand(func, env), "args": a})
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let mk = format!("{msg:?}");
                let mk = mk.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                json!({"k": "assert", "c": self.operand(cond, env), "e": expected, "t": target.as_usize(), "msg": mk})
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                json!({"k": "yield", "o": self.operand(value, env), "t": resume.as_usize(), "d": self.place(resume_arg)})
            }
            TerminatorKind::CoroutineDrop => json!({"k": "resume"}),
            TerminatorKind::FalseEdge { real_target, .. } => {
                json!({"k": "goto", "t": real_target.as_usize()})
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                json!({"k": "goto", "t": real_target.as_usize()})
            }
            TerminatorKind::InlineAsm { .. } => json!({"k": "asm"}),
        };
        v["sp"] = sp;
        v
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>) -> Value {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, d);
        let locals: Vec<Value> = body
            .local_decls
            .iter()
            .map(|l| json!(self.ty(l.ty)))
            .collect();
        let mut names = Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), json!(v.name.to_string()));
                }
            }
        }
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !p.projection.is_empty() {
                    upv.push(json!([v.name.to_string(), self.place(p)]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(json!({"p": self.place(p), "r": self.rvalue(r, env), "sp": self.span(s.source_info.span)}));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!({"setd": self.place(place), "v": variant_index.as_usize()}));
                    }
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), env);
            blocks.push(json!({"s": st, "t": t, "c": bb.is_cleanup}));
        }
        let kind = tcx.def_kind(d);
        let mut m = Map::new();
        m.insert("path".into(), json!(path(tcx, d)));
        m.insert("kind".into(), json!(format!("{kind:?}")));
        m.insert("argc".into(), json!(body.arg_count));
        let ga = ty::GenericArgs::identity_for_item(tcx, d);
        let mut gp = vec![];
        for a in ga.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => gp.push(json!(format!("{t}"))),
                GenericArgKind::Const(c) => gp.push(json!(format!("{c}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        m.insert("gp".into(), Value::Array(gp));
        m.insert("locals".into(), json!(locals));
        m.insert("names".into(), Value::Object(names));
        m.insert("upv".into(), json!(upv));
        m.insert("bb".into(), json!(blocks));
        m.insert("sp".into(), self.span(tcx.def_span(d)));
        m.insert("macro".into(), json!(tcx.def_span(d).from_expansion()));
        if tcx.is_closure_like(d) || matches!(kind, DefKind::Closure | DefKind::AnonConst) {
            m.insert("parent".into(), json!(path(tcx, tcx.parent(d))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            m.insert("vis".into(), json!(tcx.visibility(d).is_public()));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            m.insert("unsafe".into(), json!(sig.safety().is_unsafe()));
            m.insert("async".into(), json!(tcx.asyncness(d).is_async()));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let x = self.ty(st);
                m.insert("impl_self".into(), json!(x));
                m.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string())));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    m.insert("impl_trait".into(), json!(path(tcx, tr.def_id)));
                    let a = self.args(tr.args);
                    m.insert("impl_trait_args".into(), a);
                }
            } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                m.insert("in_trait".into(), json!(path(tcx, p)));
                m.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string())));
            } else {
                m.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string())));
            }
        }
        Value::Object(m)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let wanted = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
        let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
        if out.is_empty() || !wanted.split(',').any(|w| w == krate) {
            return Compilation::Continue;
        }
        let mut cx = Ctx { tcx, tys: HashMap::new(), ty_table: vec![], adts: HashMap::new(), adt_queue: vec![] };
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        // clone every body before anything can steal it
        let mut bodies = vec![];
        let mut stolen = vec![];
        for d in &owners {
            if !matches!(tcx.def_kind(d.to_def_id()), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let s = tcx.mir_built(*d);
            if s.is_stolen() {
                stolen.push(path(tcx, d.to_def_id()));
            } else {
                bodies.push((d.to_def_id(), s.borrow().clone()));
            }
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        for (d, b) in &bodies {
            let v = cx.body(*d, b);
            fns.push(v);
        }
        // consts, trait impls
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let mut m = Map::new();
                m.insert("path".into(), json!(path(tcx, did)));
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let x = cx.ty(t);
                m.insert("t".into(), json!(x));
                if let Some(p) = tcx.opt_parent(did) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let x = cx.ty(st);
                        m.insert("impl_self".into(), json!(x));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            m.insert("impl_trait".into(), json!(path(tcx, tr.skip_binder().def_id)));
                        }
                        m.insert("name".into(), json!(tcx.opt_item_name(did).map(|s| s.to_string())));
                    }
                }
                let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                if !generic && !matches!(k, DefKind::Static { .. }) && !matches!(tcx.opt_parent(did).map(|p| tcx.def_kind(p)), Some(DefKind::Trait)) {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let s = cx.scalar(v, t);
                        m.insert("v".into(), s);
                    }
                }
                consts.push(Value::Object(m));
            }
        }
        let mut impls = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let x = cx.ty(st);
                let tr = tcx.impl_opt_trait_ref(did).map(|t| path(tcx, t.skip_binder().def_id));
                let items: Vec<Value> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|it| json!([it.opt_name().map(|s| s.to_string()), path(tcx, it.def_id)]))
                    .collect();
                impls.push(json!({"self": x, "trait": tr, "items": items}));
            }
        }
        let mut adts = Map::new();
        while let Some(d) = cx.adt_queue.pop() {
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    Some(def.discriminant_for_variant(tcx, vi).val.to_string())
                } else {
                    None
                };
                let fs: Vec<Value> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ts = with_no_trimmed_paths!(t.to_string());
                        json!([f.name.to_string(), ts])
                    })
                    .collect();
                vs.push(json!({"n": v.name.to_string(), "d": discr, "f": fs}));
            }
            adts.insert(path(tcx, d), json!({"enum": def.is_enum(), "v": vs, "local": d.is_local()}));
        }
        let all = json!({"crate": krate, "fns": fns, "types": cx.ty_table, "consts": consts, "impls": impls,
                         "adts": adts, "stolen": stolen});
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let f = format!("{out}/{krate}.{kind}.json");
        std::fs::write(&f, serde_json::to_vec(&all).unwrap()).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
