//! rustc driver that dumps the MIR of one crate (and of the library functions it calls that are on an
//! allow-list) as JSON.  It is run by cargo as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
//! Nothing here interprets the program; it only prints what the compiler produced.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    inst_ids: HashMap<String, ()>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, Option<Promoted>)>,
    out: Vec<String>,
    allow: Vec<String>,
    opaque_adts: Vec<String>,
    skipped: Vec<String>,
    std: HashMap<String, DefId>,
    max_blocks: usize,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn pretty<T: std::fmt::Display>(&self, t: T) -> String {
        use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }

    fn args_json(&mut self, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(format!("{}", self.ty(t, env)));
            } else if let Some(c) = a.as_const() {
                v.push(js(&format!("{}", c)));
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let pretty = self.pretty(t);
        let body = match t.kind() {
            ty::TyKind::Bool => r#""k":"bool""#.to_string(),
            ty::TyKind::Char => r#""k":"char""#.to_string(),
            ty::TyKind::Str => r#""k":"str""#.to_string(),
            ty::TyKind::Never => r#""k":"never""#.to_string(),
            ty::TyKind::Int(i) => format!(r#""k":"int","n":{}"#, js(i.name_str())),
            ty::TyKind::Uint(i) => format!(r#""k":"int","n":{}"#, js(i.name_str())),
            ty::TyKind::Ref(_, t2, m) => {
                let x = self.ty(*t2, env);
                format!(r#""k":"ref","t":{},"mut":{}"#, x, m.is_mut())
            }
            ty::TyKind::RawPtr(t2, m) => {
                let x = self.ty(*t2, env);
                format!(r#""k":"ptr","t":{},"mut":{}"#, x, m.is_mut())
            }
            ty::TyKind::Slice(t2) => {
                let x = self.ty(*t2, env);
                format!(r#""k":"slice","t":{}"#, x)
            }
            ty::TyKind::Array(t2, n) => {
                let x = self.ty(*t2, env);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","t":{},"n":{}"#, x, n)
            }
            ty::TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                format!(r#""k":"tuple","ts":[{}]"#, v.join(","))
            }
            ty::TyKind::Param(p) => format!(r#""k":"param","n":{}"#, js(p.name.as_str())),
            ty::TyKind::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!(r#""k":"dyn","trait":{}"#, js(&tr))
            }
            ty::TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let (key, info) = self.callee(*d, a, env);
                let aj = self.args_json(a, env);
                format!(r#""k":"fndef","path":{},"args":{},"inst":{},{}"#, js(&self.path(*d)), aj, key, info)
            }
            ty::TyKind::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::TyKind::Closure(d, a) => {
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let ups: Vec<String> = ups.into_iter().map(|x| self.ty(x, env).to_string()).collect();
                let inst = Instance::new_raw(*d, a);
                let key = self.enqueue(inst, env);
                let names: Vec<String> = self
                    .tcx
                    .closure_captures_names(*d)
                    .into_iter()
                    .map(|s| js(&s))
                    .collect();
                format!(r#""k":"closure","path":{},"ups":[{}],"inst":{},"names":[{}]"#, js(&self.path(*d)), ups.join(","), js(&key), names.join(","))
            }
            ty::TyKind::Adt(def, a) => {
                let p = self.path(def.did());
                let aj = self.args_json(a, env);
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let opaque = self.opaque_adts.iter().any(|x| p == *x);
                let mut vs = vec![];
                if !opaque {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, a);
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(env, ft)
                                .unwrap_or(f.ty(self.tcx, a).skip_norm_wip());
                            let x = self.ty(ft, env);
                            fs.push(format!("[{},{}]", js(f.name.as_str()), x));
                        }
                        vs.push(format!(r#"{{"name":{},"discr":{},"fields":[{}]}}"#, js(v.name.as_str()), discr, fs.join(",")));
                    }
                }
                format!(r#""k":"adt","path":{},"args":{},"kind":"{}","opaque":{},"variants":[{}]"#, js(&p), aj, kind, opaque, vs.join(","))
            }
            _ => r#""k":"other""#.to_string(),
        };
        self.type_json[id] = format!(r#"{{{},"s":{}}}"#, body, js(&pretty));
        id
    }

    fn key(&self, inst: &Instance<'tcx>) -> String {
        let p = self.path(inst.def_id());
        let mut a = vec![];
        for x in inst.args.iter() {
            if x.as_region().is_none() {
                a.push(self.pretty(x));
            }
        }
        let kind = match inst.def {
            InstanceKind::Item(_) => "".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic ".to_string(),
            InstanceKind::Virtual(..) => "virtual ".to_string(),
            _ => "shim ".to_string(),
        };
        // disambiguate impls of the same trait method by the def path debug string
        let dbg = format!("{:?}", inst.def_id());
        let dbg = dbg.split('~').nth(1).unwrap_or("").trim_end_matches(')').to_string();
        let dbg = match dbg.find("]::") { Some(i) => dbg[i+3..].to_string(), None => dbg };
        format!("{}{}<{}>#{}", kind, p, a.join(", "), dbg)
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let key = self.key(&inst);
        if self.inst_ids.contains_key(&key) {
            return key;
        }
        self.inst_ids.insert(key.clone(), ());
        let d = inst.def_id();
        let ok = match inst.def {
            InstanceKind::Item(_) => {
                d.is_local() || {
                    let p = self.path(d);
                    self.allow.iter().any(|x| p.starts_with(x.as_str())) && self.tcx.is_mir_available(d)
                }
            }
            _ => false,
        };
        if ok && (!d.is_local() || self.tcx.is_mir_available(d)) {
            self.queue.push_back((key.clone(), inst, env, None));
        }
        key
    }

    /// iterator methods whose definition is taken from the appended module dv_std (see extract/dv_std.rs)
    fn redirect(&self, d: DefId, a: GenericArgsRef<'tcx>, tr: &str, name: &str) -> (DefId, GenericArgsRef<'tcx>) {
        let iter = tr == r#""core::iter::traits::iterator::Iterator""#;
        let ext = tr == r#""core::iter::traits::collect::Extend""#;
        if !iter && !ext { return (d, a); }
        let ts: Vec<Ty<'tcx>> = a.types().collect();
        let adt = |t: Ty<'tcx>| match t.kind() { ty::Adt(x, _) => self.path(x.did()), _ => String::new() };
        if ts.is_empty() { return (d, a); }
        let me = adt(ts[0]);
        let (f, args) = if iter {
            match name {
                "find" | "find_map" | "any" | "all" | "position" | "for_each" | "fold" => (format!("iter_{}", name), a),
                "last" => (format!("iter_{}", name), a),
                "count" if me.starts_with("core::iter::adapters") => ("iter_count".to_string(), a),
                "collect" if ts.len() > 1 && adt(ts[1]) == "alloc::vec::Vec" && me.starts_with("core::iter::adapters") =>
                    ("iter_collect_vec".to_string(), self.tcx.mk_args(&[ts[0].into()])),
                _ => return (d, a),
            }
        } else if name == "extend" && me == "alloc::vec::Vec" && ts.len() > 2 {
            let el = match ts[0].kind() { ty::Adt(_, x) => x.type_at(0), _ => return (d, a) };
            if el != ts[1] { return (d, a); }
            ("vec_extend".to_string(), self.tcx.mk_args(&[ts[1].into(), ts[2].into()]))
        } else { return (d, a) };
        match self.std.get(&f) { Some(x) => (*x, args), None => (d, a) }
    }

    /// (json of instance key or null, extra json fields)
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> (String, String) {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            // constructor functions
            let ctor = matches!(self.tcx.def_kind(d), DefKind::Ctor(..));
            if ctor {
                let parent = self.tcx.parent(d);
                let is_variant = matches!(self.tcx.def_kind(parent), DefKind::Variant);
                let adt = if is_variant { self.tcx.parent(parent) } else { parent };
                let vidx = if is_variant { self.tcx.adt_def(adt).variant_index_with_id(parent).as_usize() } else { 0 };
                return ("null".into(), format!(r#""ctor":{},"vidx":{}"#, js(&self.path(adt)), vidx));
            }
            return ("null".into(), r#""ctor":null"#.into());
        }
        let tr = match self.tcx.trait_of_assoc(d) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        let name = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let (d, a) = self.redirect(d, a, &tr, &name);
        match Instance::try_resolve(self.tcx, env, d, a) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let rp = self.path(inst.def_id());
                let key = self.enqueue(inst, env);
                let raj = self.args_json(inst.args, env);
                (js(&key), format!(r#""kind":"{}","trait":{},"name":{},"rpath":{},"rargs":{}"#, kind, tr, js(&name), js(&rp), raj))
            }
            _ => ("null".into(), format!(r#""kind":"unresolved","trait":{},"name":{}"#, tr, js(&name))),
        }
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(i, t) => format!(r#"["f",{},{}]"#, i.as_usize(), self.ty(t, env)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!(r#"["ci",{},{}]"#, offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["sub",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!(r#"["d",{}]"#, vi.as_usize()),
                _ => r#"["?"]"#.to_string(),
            });
        }
        format!(r#"[{},[{}]]"#, p.local.as_usize(), v.join(","))
    }

    fn const_json(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                let key = format!("{}::promoted[{}]", self.key(&inst), pr.as_usize());
                if !self.inst_ids.contains_key(&key) {
                    self.inst_ids.insert(key.clone(), ());
                    self.queue.push_back((key.clone(), inst, env, Some(pr)));
                }
                return format!(r#"{{"c":"promoted","inst":{},"ty":{}}}"#, js(&key), tid);
            }
        }
        let pretty = self.pretty(c.const_);
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                if let ConstValue::ZeroSized = v {
                    return format!(r#"{{"c":"zst","ty":{}}}"#, tid);
                }
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    return format!(r#"{{"c":"int","v":"{}","size":{},"ty":{}}}"#, bits, s.size().bytes(), tid);
                }
                if let ty::TyKind::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            if let Ok(s) = std::str::from_utf8(b) {
                                return format!(r#"{{"c":"str","v":{},"ty":{}}}"#, js(s), tid);
                            }
                        }
                    }
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    if let Some(path) = self.global_static(p.provenance.alloc_id()) {
                        return format!(r#"{{"c":"static","path":{},"ty":{}}}"#, js(&path), tid);
                    }
                }
                format!(r#"{{"c":"opaque","v":{},"ty":{}}}"#, js(&pretty), tid)
            }
            Err(_) => format!(r#"{{"c":"opaque","v":{},"ty":{}}}"#, js(&pretty), tid),
        }
    }

    fn global_static(&self, id: interpret::AllocId) -> Option<String> {
        match self.tcx.try_get_global_alloc(id) {
            Some(interpret::GlobalAlloc::Static(d)) => Some(self.path(d)),
            _ => None,
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["cp",{}]"#, self.place(p, env)),
            Operand::Move(p) => format!(r#"["mv",{}]"#, self.place(p, env)),
            Operand::Constant(c) => format!(r#"["c",{}]"#, self.const_json(c, env)),
            Operand::RuntimeChecks(r) => format!(r#"["rt",{}]"#, js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"["repeat",{},{}]"#, self.operand(o, env), n)
            }
            Rvalue::Ref(_, bk, p) => format!(r#"["ref",{},{}]"#, self.place(p, env), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, m, p) => format!(r#"["reborrow",{},{}]"#, self.place(p, env), m.is_mut()),
            Rvalue::RawPtr(k, p) => format!(r#"["ref",{},{}]"#, self.place(p, env), matches!(k, RawPtrKind::Mut)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                let from = self.ty_of_operand(o);
                let f = from.map(|t| self.ty(t, env).to_string()).unwrap_or("null".into());
                format!(r#"["cast",{},{},{},{}]"#, js(&k), self.operand(o, env), self.ty(*t, env), f)
            }
            Rvalue::BinaryOp(op, ab) => {
                format!(r#"["bin",{},{},{}]"#, js(&format!("{:?}", op)), self.operand(&ab.0, env), self.operand(&ab.1, env))
            }
            Rvalue::UnaryOp(op, a) => format!(r#"["un",{},{}]"#, js(&format!("{:?}", op)), self.operand(a, env)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p, env)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|x| self.operand(x, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!(r#"["array",{}]"#, self.ty(*t, env)),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a);
                        let t = self.tcx.try_normalize_erasing_regions(env, t).unwrap_or(t.skip_norm_wip());
                        format!(r#"["adt",{},{}]"#, self.ty(t, env), v.as_usize())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        format!(r#"["closure",{}]"#, self.ty(t, env))
                    }
                    AggregateKind::RawPtr(t, _) => format!(r#"["rawptr",{}]"#, self.ty(*t, env)),
                    _ => r#"["?"]"#.to_string(),
                };
                format!(r#"["agg",{},[{}]]"#, k, f.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["cp",{}]]"#, self.place(p, env)),
            Rvalue::ThreadLocalRef(d) => format!(r#"["tls",{}]"#, js(&self.path(*d))),
            _ => format!(r#"["?",{}]"#, js(&format!("{:?}", r))),
        }
    }

    fn ty_of_operand(&self, o: &Operand<'tcx>) -> Option<Ty<'tcx>> {
        match o {
            Operand::Constant(c) => Some(c.const_.ty()),
            _ => None,
        }
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, env: TypingEnv<'tcx>, pr: Option<Promoted>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: &Body<'tcx> = match pr {
            Some(p) => &tcx.promoted_mir(d)[p],
            None => tcx.instance_mir(inst.def),
        };
        if raw.basic_blocks.len() > self.max_blocks {
            self.skipped.push(format!("{}", js(key)));
            return;
        }
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => {
                self.skipped.push(format!("{}", js(key)));
                return;
            }
        };
        let mut o = String::new();
        let sp = tcx.def_span(d);
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let file = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut trait_path = "null".to_string();
        let mut self_ty = "null".to_string();
        if let Some(imp) = tcx.impl_of_assoc(d) {
            if tcx.impl_is_of_trait(imp) {
                trait_path = js(&self.path(tcx.impl_trait_ref(imp).skip_binder().def_id));
            }
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            if let ty::TyKind::Adt(ad, _) = st.kind() {
                self_ty = js(&self.path(ad.did()));
            } else {
                self_ty = js(&self.pretty(st));
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            trait_path = js(&self.path(t));
        }
        let vis = pr.is_none() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
        let argtys = self.args_json(inst.args, env);
        let _ = write!(
            o,
            r#"{{"key":{},"path":{},"name":{},"trait":{},"self":{},"local":{},"pub":{},"closure":{},"file":{},"line":{},"argc":{},"args":{},"#,
            js(key), js(&self.path(d)), js(&name), trait_path, self_ty, d.is_local(), vis, tcx.is_closure_like(d), js(&file), loc.line, body.arg_count, argtys
        );
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let _ = write!(o, r#""locals":[{}],"#, ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(p, env)));
            }
        }
        let _ = write!(o, r#""names":[{}],"#, names.join(","));
        let spread = body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
        let _ = write!(o, r#""spread":{},"blocks":["#, spread);
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for s in &bb.statements {
                let line = tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, env);
                        // result type of casts from places needs the operand type
                        let rv = match &b.1 {
                            Rvalue::Cast(k, op, t) => {
                                let f = self.ty(op.ty(&body, tcx), env);
                                format!(r#"["cast",{},{},{},{}]"#, js(&format!("{:?}", k)), self.operand(op, env), self.ty(*t, env), f)
                            }
                            Rvalue::Discriminant(p) => {
                                let t = p.ty(&body, tcx).ty;
                                let f = self.ty(t, env);
                                format!(r#"["discr",{},{}]"#, self.place(p, env), f)
                            }
                            Rvalue::BinaryOp(op, ab) => {
                                let f = self.ty(ab.0.ty(&body, tcx), env);
                                format!(r#"["bin",{},{},{},{}]"#, js(&format!("{:?}", op)), self.operand(&ab.0, env), self.operand(&ab.1, env), f)
                            }
                            Rvalue::UnaryOp(op, a) => {
                                let f = self.ty(a.ty(&body, tcx), env);
                                format!(r#"["un",{},{},{}]"#, js(&format!("{:?}", op)), self.operand(a, env), f)
                            }
                            r => self.rvalue(r, env),
                        };
                        ss.push(format!("[{},{},{}]", pl, rv, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!(r#"[{},["setdiscr",{}],{}]"#, self.place(place, env), variant_index.as_usize(), line));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!(r#"["dead",{}]"#, l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => ss.push(format!(r#"["intrinsic",{}]"#, js(&format!("{:?}", i)))),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(term.source_info.span.source_callsite().lo()).line;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!(r#"["{}",{}]"#, v, b.as_usize())).collect();
                    let f = self.ty(discr.ty(&body, tcx), env);
                    format!(r#"["switch",{},[{}],{},{}]"#, self.operand(discr, env), v.join(","), targets.otherwise().as_usize(), f)
                }
                TerminatorKind::Return => r#"["return"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => r#"["unwind"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let f = self.ty(place.ty(&body, tcx).ty, env);
                    format!(r#"["drop",{},{},{}]"#, self.place(place, env), target.as_usize(), f)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div",
                        _ => "other",
                    };
                    format!(r#"["assert",{},{},{},{},{}]"#, self.operand(cond, env), expected, js(kind), target.as_usize(), js(&m))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.ty(func.ty(&body, tcx), env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body, tcx); self.ty(t, env).to_string() }).collect();
                    let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    let dt = self.ty(destination.ty(&body, tcx).ty, env);
                    format!(r#"["call",{},{},[{}],{},{},[{}],{}]"#, f, self.operand(func, env), a.join(","), self.place(destination, env), tg, at.join(","), dt)
                }
                k => format!(r#"["?",{}]"#, js(&format!("{:?}", k))),
            };
            let _ = write!(o, r#"{{"s":[{}],"t":{},"line":{}}}"#, ss.join(","), t, line);
        }
        o.push_str("]}");
        self.out.push(o);
    }
}

trait CaptNames {
    fn closure_captures_names(&self, d: DefId) -> Vec<String>;
}
impl<'tcx> CaptNames for TyCtxt<'tcx> {
    fn closure_captures_names(&self, d: DefId) -> Vec<String> {
        match d.as_local() {
            Some(l) => self.closure_captures(l).iter().map(|c| c.to_string(*self)).collect(),
            None => vec![],
        }
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let split = |v: &str| -> Vec<String> {
            std::env::var(v).unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
        };
        let mut d = Dumper {
            tcx,
            types: HashMap::new(),
            type_json: vec![],
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            out: vec![],
            allow: split("MIRDUMP_ALLOW"),
            opaque_adts: split("MIRDUMP_OPAQUE"),
            skipped: vec![],
            std: tcx.mir_keys(()).iter().map(|l| l.to_def_id()).filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn) && tcx.def_path_str(*d).starts_with("dv_std::")).map(|d| (tcx.item_name(d).to_string(), d)).collect(),
            max_blocks: 4000,
        };
        let mut seen: HashSet<DefId> = HashSet::new();
        for l in tcx.mir_keys(()) {
            let did = l.to_def_id();
            if !seen.insert(did) {
                continue;
            }
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            d.enqueue(inst, env);
        }
        while let Some((k, i, e, p)) = d.queue.pop_front() {
            d.body(&k, i, e, p);
        }
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let s = format!(
            "{{\"types\":[\n{}\n],\"fns\":[\n{}\n],\"skipped\":[{}]}}\n",
            d.type_json.join(",\n"),
            d.out.join(",\n"),
            d.skipped.join(",")
        );
        std::fs::write(out, s).expect("write MIR dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: mirdump <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
