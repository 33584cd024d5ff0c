//! mirdump: a rustc driver that writes the MIR of the crate being compiled (with resolved
//! callees, ADT layouts, evaluated constants and source lines) as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <args..>`; the output goes to
//! $MIRDUMP_OUT/<crate name>.<crate type>.json.  Build scripts are compiled as usual.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::Scalar;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

struct Dump;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, usize>,
    type_list: Vec<String>,
    adts: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = with_no_trimmed_paths!(format!("{}", t));
        let key = match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => format!("{:?}", t),
            _ => s.clone(),
        };
        if let Some(i) = self.types.get(&key) {
            return *i;
        }
        let i = self.type_list.len();
        self.types.insert(key, i);
        self.type_list.push(String::new());
        let js = match t.kind() {
            ty::Adt(def, args) => {
                self.adts.insert(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!(
                    "{{\"k\":\"adt\",\"s\":{},\"adt\":{},\"args\":[{}]}}",
                    esc(&s),
                    esc(&self.path(def.did())),
                    a.join(",")
                )
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"s\":{},\"to\":{},\"mut\":{}}}", esc(&s), i, m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"s\":{},\"to\":{},\"mut\":{}}}", esc(&s), i, m.is_mut())
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                format!("{{\"k\":\"slice\",\"s\":{},\"to\":{}}}", esc(&s), i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{},\"to\":{},\"n\":{}}}", esc(&s), i, n)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{},\"args\":[{}]}}", esc(&s), a.join(","))
            }
            ty::Closure(d, _) => {
                format!("{{\"k\":\"closure\",\"s\":{},\"def\":{}}}", esc(&s), esc(&self.path(*d)))
            }
            ty::FnDef(d, _) => {
                format!("{{\"k\":\"fndef\",\"s\":{},\"def\":{}}}", esc(&s), esc(&self.path(*d)))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&s))
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&s)),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{}}}", esc(&s)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&s)),
        };
        self.type_list[i] = js;
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) if def.is_struct() => {
                            def.non_enum_variant().fields[f].name.to_string()
                        }
                        ty::Adt(def, _) if def.is_enum() => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                _ => o.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn fn_const(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let mut res_tys = String::new();
        let mut rargs = String::new();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                res = esc(&self.path(inst.def_id()));
                let ra: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                rargs = ra.join(",");
                if let ty::InstanceKind::Item(_) = inst.def {
                } else {
                    res_tys = format!(",\"ik\":{}", esc(&format!("{:?}", inst.def).chars().take_while(|c| *c != '(').collect::<String>()));
                }
            }
        }
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let tr = tcx
            .trait_of_assoc(d)
            .map(|t| esc(&self.path(t)))
            .unwrap_or("null".into());
        format!(
            "{{\"k\":\"fn\",\"path\":{},\"res\":{},\"trait\":{},\"targs\":[{}],\"rargs\":[{}]{}}}",
            esc(&self.path(d)),
            res,
            tr,
            a.join(","),
            rargs,
            res_tys
        )
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, owner: &str, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = tcx.erase_and_anonymize_regions(args.skip_binder());
                return self.fn_const(env, *d, args);
            }
            _ => {}
        }
        let tyi = self.ty(t);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                extra = format!(",\"promoted\":{}", esc(&format!("{}#p{}", owner, p.as_usize())));
            } else {
                extra = format!(",\"named\":{}", esc(&self.path(u.def)));
            }
        }
        if extra.contains("promoted") {
            return format!("{{\"k\":\"const\",\"ty\":{}{}}}", tyi, extra);
        }
        let val = c.const_.eval(tcx, env, c.span);
        let mut v = "null".to_string();
        if let Ok(cv) = val {
            match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                    if let Some(si) = cv.try_to_scalar_int() {
                        let bits = si.to_bits(si.size());
                        v = match t.kind() {
                            ty::Int(_) => {
                                let sz = si.size().bits();
                                let sh = 128 - sz;
                                (((bits << sh) as i128) >> sh).to_string()
                            }
                            ty::Float(_) => format!("{{\"bits\":{}}}", bits),
                            _ => bits.to_string(),
                        };
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        v = esc(&String::from_utf8_lossy(b));
                        extra.push_str(",\"str\":true");
                    }
                }
                ty::Ref(_, inner, _) => {
                    // a reference to a static, or to constant data
                    if let Some(Scalar::Ptr(p, _)) = cv.try_to_scalar() {
                        let (prov, _off) = p.into_raw_parts();
                        match tcx.global_alloc(prov.alloc_id()) {
                            rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                                extra.push_str(&format!(",\"static\":{}", esc(&self.path(d))));
                            }
                            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                                if let ty::Array(e, _) = inner.kind() {
                                    if *e == tcx.types.u8 {
                                        let len = m.inner().len();
                                        let b = m
                                            .inner()
                                            .inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                        let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                        extra.push_str(&format!(",\"bytes\":[{}]", l.join(",")));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                ty::Adt(def, _) => {
                    // unit-like or scalar enum constants
                    if let Some(si) = cv.try_to_scalar_int() {
                        let bits = si.to_bits(si.size());
                        if def.is_enum() {
                            for (vi, d) in def.discriminants(tcx) {
                                let sz = si.size().bits();
                                let m = if sz == 128 { u128::MAX } else { (1u128 << sz) - 1 };
                                if d.val & m == bits {
                                    extra.push_str(&format!(",\"variant\":{}", esc(&def.variant(vi).name.to_string())));
                                }
                            }
                        }
                        v = bits.to_string();
                    }
                }
                _ => {}
            }
        }
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}{}}}", tyi, v, extra)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, owner: &str, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, owner, c),
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, owner: &str, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, owner, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, owner, body, o), n)
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(body, p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let st = o.ty(&body.local_decls, self.tcx);
                let si = self.ty(st);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{},{}]", self.operand(env, owner, body, o), si, ti, esc(&ks))
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(lt);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(env, owner, body, &b.0),
                    self.operand(env, owner, body, &b.1),
                    ti
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let ti = self.ty(lt);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(env, owner, body, o), ti)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"copy\",\"p\":{}}}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, owner, body, o)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,[{}]]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,[{}]]", os),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adts.insert(*d);
                        let def = self.tcx.adt_def(*d);
                        format!(
                            "[\"agg\",\"adt\",[{},{},{}],[{}]]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(&def.variant(*v).name.to_string()),
                            os
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},[{}]]", esc(&self.path(*d)), os)
                    }
                    _ => format!("[\"agg\",\"other\",null,[{}]]", os),
                }
            }
            _ => "[\"other\"]".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&mut self, name: &str, did: LocalDefId, body: &Body<'tcx>, is_promoted: bool) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let sp = body.span.source_callsite();
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let hi = tcx.sess.source_map().lookup_char_pos(sp.hi()).line;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(env, name, body, &b.1);
                        st.push(format!("[{},\"a\",{},{}]", ln, p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[{},\"sd\",{},{}]", ln, p, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(dt);
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(env, name, body, discr),
                        tv.join(","),
                        targets.otherwise().as_usize(),
                        ti
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, name, body, func);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(env, name, body, &x.node)).collect();
                    let d = self.place(body, destination);
                    let exp = t.source_info.span.from_expansion();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        d,
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        exp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(env, name, body, cond);
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(60).collect();
                    format!("[\"assert\",{},{},{},{}]", c, expected, target.as_usize(), esc(&m))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", st.join(","), ts, ln, bb.is_cleanup));
        }
        format!(
            "{{\"name\":{},\"file\":{},\"line\":{},\"end\":{},\"kind\":{},\"args\":{},\"promoted\":{},\"generics\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            esc(name),
            esc(&file),
            loc.line,
            hi,
            esc(&format!("{:?}", tcx.def_kind(did))),
            body.arg_count,
            is_promoted,
            self.generics_of(did.into()).join(","),
            locals.join(","),
            blocks.join(",\n")
        )
    }

    fn generics_of(&self, did: DefId) -> Vec<String> {
        let tcx = self.tcx;
        let g = tcx.generics_of(did);
        let mut out = match g.parent {
            Some(p) => self.generics_of(p),
            None => vec![],
        };
        for p in &g.own_params {
            if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                out.push(esc(&p.name.to_string()));
            }
        }
        out
    }

    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let id_args = ty::GenericArgs::identity_for_item(tcx, d);
        let mut vs = Vec::new();
        let discrs: BTreeMap<usize, String> = if def.is_enum() {
            def.discriminants(tcx)
                .map(|(v, d)| (v.as_usize(), format!("{}", d)))
                .collect()
        } else {
            BTreeMap::new()
        };
        let generics: Vec<String> = tcx.generics_of(d).own_params.iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| esc(&p.name.to_string())).collect();
        for (vi, v) in def.variants().iter_enumerated() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = f.ty(tcx, id_args);
                    let ti = if d.is_local() || matches!(t.skip_norm_wip().kind(), ty::Param(_)) {
                        self.ty(t.skip_norm_wip()).to_string()
                    } else {
                        "null".into()
                    };
                    format!("[{},{}]", esc(&f.name.to_string()), ti)
                })
                .collect();
            vs.push(format!(
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                esc(&v.name.to_string()),
                discrs.get(&vi.as_usize()).cloned().map(|s| esc(&s)).unwrap_or("null".into()),
                fs.join(",")
            ));
        }
        format!(
            "{{\"path\":{},\"kind\":{},\"local\":{},\"generics\":[{}],\"variants\":[{}]}}",
            esc(&self.path(d)),
            esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
            d.is_local(),
            generics.join(","),
            vs.join(",")
        )
    }
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        // no alignment, null and enum validity checks in the MIR
        config.opts.unstable_opts.ub_checks = Some(false);
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let mut cx = Cx {
            tcx,
            types: BTreeMap::new(),
            type_list: vec![],
            adts: HashSet::new(),
        };
        let mut fns = Vec::new();
        let mut skipped = 0usize;
        for &did in tcx.mir_keys(()).iter() {
            let kind = tcx.def_kind(did);
            let name = cx.path(did.to_def_id());
            // the LALRPOP-generated parser: only its semantic actions are of interest
            let sp = tcx.def_span(did);
            let f = tcx.sess.source_map().lookup_char_pos(sp.lo()).file.name.prefer_local_unconditionally().to_string();
            if f.ends_with("c_parser.rs") && f.contains("/out/") && !name.contains("::__action") {
                skipped += 1;
                continue;
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(did.to_def_id());
                    fns.push(cx.body(&name, did, body, false));
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    let body = tcx.mir_for_ctfe(did.to_def_id());
                    fns.push(cx.body(&name, did, body, false));
                }
                _ => continue,
            }
            for (i, b) in tcx.promoted_mir(did.to_def_id()).iter_enumerated() {
                let n = format!("{}#p{}", name, i.as_usize());
                fns.push(cx.body(&n, did, b, true));
            }
        }
        // make sure every local ADT is described, also the unused ones
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Enum | DefKind::Struct | DefKind::Union) {
                cx.adts.insert(id.to_def_id());
            }
        }
        let mut adts: Vec<String> = Vec::new();
        let mut done: HashSet<DefId> = HashSet::new();
        loop {
            let todo: Vec<DefId> = cx.adts.difference(&done).cloned().collect();
            if todo.is_empty() {
                break;
            }
            for d in todo {
                done.insert(d);
                adts.push(cx.adt(d));
            }
        }
        let mut impls = Vec::new();
        for (tr, is) in tcx.all_local_trait_impls(()) {
            for i in is {
                let self_ty = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let t = cx.ty(self_ty);
                impls.push(format!(
                    "[{},{},{}]",
                    esc(&cx.path(*tr)),
                    t,
                    tcx.is_builtin_derived(i.to_def_id())
                ));
            }
        }
        let s = format!(
            "{{\"crate\":{},\"bin\":{},\"skipped_generated\":{},\"types\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"fns\":[{}]}}\n",
            esc(&krate),
            is_bin,
            skipped,
            cx.type_list.join(",\n"),
            adts.join(",\n"),
            impls.join(","),
            fns.join(",\n")
        );
        let path = format!("{}/{}.{}.json", out, krate, if is_bin { "bin" } else { "lib" });
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, s).expect("mirdump: cannot write output");
        std::fs::rename(&tmp, &path).expect("mirdump: cannot rename output");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let is_probe = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a == "___");
    rustc_driver::catch_with_exit_code(|| {
        if is_build_script || is_probe {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Dump)
        }
    })
}
