//! `RUSTC_WORKSPACE_WRAPPER` that writes the built MIR of every body of the
//! crates being checked to a JSON file.  Nothing of the analysed crate runs:
//! the compiler is stopped after type checking, the bodies are those the
//! compiler itself would lower.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LocalDefId};
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            ty::print::with_resolve_crate_name!(t.to_string())
        ))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(format!("{{\"c\":{}}}", esc(&c.to_string()))),
            }
        }
        format!("[{}]", v.join(","))
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&d.did()) {
            return;
        }
        self.adts.insert(d.did(), String::new());
        self.adt_order.push(d.did());
        let mut vs = vec![];
        let discrs: Vec<String> = if d.is_enum() {
            d.discriminants(self.tcx).map(|(_, x)| x.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        for (i, v) in d.variants().iter_enumerated() {
            let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
            vs.push(format!(
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                esc(v.name.as_str()),
                esc(discrs.get(i.as_usize()).map(|s| s.as_str()).unwrap_or("0")),
                fs.join(",")
            ));
        }
        let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        let s = format!(
            "{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}",
            kind,
            d.did().is_local(),
            vs.join(",")
        );
        self.adts.insert(d.did(), s);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, id);
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"name\":{}", esc(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"int\",\"name\":{}", esc(i.name_str())),
            ty::Float(i) => format!("\"k\":\"float\",\"name\":{}", esc(i.name_str())),
            ty::Adt(d, a) => {
                self.adt(d);
                let a = self.args(a);
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", esc(&self.path(d.did())), a)
            }
            ty::Ref(_, x, m) => {
                let i = self.ty(x);
                format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::RawPtr(x, m) => {
                let i = self.ty(x);
                format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(x)),
            ty::Array(x, n) => {
                let i = self.ty(x);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", i, esc(&n.to_string()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", v.join(","))
            }
            ty::Param(p) => {
                format!("\"k\":\"param\",\"idx\":{},\"name\":{}", p.index, esc(p.name.as_str()))
            }
            ty::FnDef(d, a) => {
                let a = self.args(a.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", esc(&self.path(d)), a)
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"path\":{}", esc(&self.path(d))),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tys[id] = format!("{{{},\"s\":{}}}", body, esc(&self.tystr(t)));
        id
    }
    fn fnref(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut s = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.args(a));
        let _ = write!(s, ",\"local\":{}", d.is_local());
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
            let _ = write!(s, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let v: Vec<String> = sig
                .skip_binder()
                .inputs()
                .iter()
                .map(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()).to_string())
                .collect();
            let _ = write!(s, ",\"muts\":[{}]", v.join(","));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. }) {
            let a2 = self.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, a2) {
                self.inst(&mut s, env, "res", i);
                // the std blanket impls that only forward to a user impl
                let p = self.path(d);
                let fwd = match p.as_str() {
                    "core::convert::Into::into" => Some(("From", "from")),
                    "core::convert::TryInto::try_into" => Some(("TryFrom", "try_from")),
                    _ => None,
                };
                if let Some((tr, m)) = fwd {
                    for t in self.tcx.all_traits_including_private() {
                        if self.path(t) == format!("core::convert::{}", tr) {
                            let f = self
                                .tcx
                                .associated_items(t)
                                .in_definition_order()
                                .find(|x| x.name().as_str() == m)
                                .unwrap()
                                .def_id;
                            let ts: Vec<ty::GenericArg<'tcx>> = a2.iter().collect();
                            let na = self.tcx.mk_args(&[ts[1], ts[0]]);
                            if !na.has_escaping_bound_vars() {
                                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, f, na) {
                                    self.inst(&mut s, env, "fwd", i);
                                }
                            }
                        }
                    }
                }
                if p == "alloc::string::ToString::to_string" {
                    for t in self.tcx.all_traits_including_private() {
                        if self.path(t) == "core::fmt::Display" {
                            let f = self.tcx.associated_items(t).in_definition_order().next().unwrap().def_id;
                            let ts: Vec<ty::GenericArg<'tcx>> = a2.iter().collect();
                            let na = self.tcx.mk_args(&[ts[0]]);
                            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, f, na) {
                                self.inst(&mut s, env, "fwd", i);
                            }
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn inst(&mut self, s: &mut String, _env: ty::TypingEnv<'tcx>, key: &str, i: Instance<'tcx>) {
        let kind = match i.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Virtual(..) => "virtual",
            _ => "shim",
        };
        let a = self.args(i.args);
        let _ = write!(
            s,
            ",\"{}\":{{\"path\":{},\"args\":{},\"local\":{},\"kind\":\"{}\"}}",
            key,
            esc(&self.path(i.def_id())),
            a,
            i.def_id().is_local(),
            kind
        );
    }
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"ci\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), v.join(","))
    }
    fn constant(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.no_bound_vars().unwrap();
            return format!("{{\"fn\":{},\"ty\":{}}}", self.fnref(env, d, a), tid);
        }
        let mut s = format!("{{\"ty\":{}", tid);
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(s, ",\"item\":{}", self.fnref(env, u.def, u.args));
            if u.promoted.is_some() {
                s.push_str(",\"promoted\":true");
            }
        }
        if !c.const_.has_param() {
            if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                s.push_str(&self.cval(v, t));
            }
        }
        s.push('}');
        s
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let mut s = String::new();
        if let ty::Ref(_, inner, _) = *t.kind() {
            let is_str = inner.is_str();
            let is_bytes = match *inner.kind() {
                ty::Slice(e) => e == self.tcx.types.u8,
                ty::Array(e, _) => e == self.tcx.types.u8,
                _ => false,
            };
            if is_str || (is_bytes && matches!(inner.kind(), ty::Slice(_))) {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if is_str {
                        let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                    } else {
                        let _ = write!(s, ",\"bytes\":{:?}", b);
                    }
                    return s;
                }
            }
            if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let _ = write!(s, ",\"static\":{}", esc(&self.path(d)));
                    }
                    GlobalAlloc::Memory(m) => {
                        if let ty::Array(e, n) = *inner.kind() {
                            if e == self.tcx.types.u8 {
                                if let Some(n) = n.try_to_target_usize(self.tcx) {
                                    let o = off.bytes() as usize;
                                    let b = m
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                    let _ = write!(s, ",\"bytes\":{:?}", b);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            return s;
        }
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let _ = match *t.kind() {
                    ty::Int(_) => write!(s, ",\"int\":\"{}\"", i.to_int(sz)),
                    ty::Float(_) => write!(s, ",\"fbits\":\"{}\"", i.to_uint(sz)),
                    _ => write!(s, ",\"int\":\"{}\"", i.to_uint(sz)),
                };
            }
            ConstValue::ZeroSized => s.push_str(",\"zst\":true"),
            _ => {}
        }
        s
    }
    fn op(&mut self, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(env, c)),
            _ => "[\"rt\"]".into(),
        }
    }
    fn rv(&mut self, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(env, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(env, o), esc(&n.to_string())),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(*p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&k), self.op(env, o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, x) => {
                let k = format!("{:?}", b);
                format!("[\"bin\",{},{},{}]", esc(&k), self.op(env, &x.0), self.op(env, &x.1))
            }
            Rvalue::UnaryOp(u, o) => {
                let k = format!("{:?}", u);
                format!("[\"un\",{},{}]", esc(&k), self.op(env, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(env, o)).collect();
                let k = match **k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let ad = self.tcx.adt_def(d);
                        self.adt(ad);
                        format!(
                            "{{\"adt\":{},\"v\":{},\"args\":{},\"uf\":{}}}",
                            esc(&self.path(d)),
                            v.as_usize(),
                            self.args(a),
                            f.map(|x| x.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"closure\":{}}}", esc(&self.path(d))),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(*p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        f.name.prefer_remapped_unconditionally().to_string()
    }
    fn body(&mut self, ld: LocalDefId, b: &Body<'tcx>) -> String {
        let d = ld.to_def_id();
        let env = b.typing_env(self.tcx);
        let kind = format!("{:?}", self.tcx.def_kind(d));
        let mut s = format!("{{\"path\":{},\"kind\":{}", esc(&self.path(d)), esc(&kind));
        let _ = write!(s, ",\"file\":{},\"line\":{}", esc(&self.file(b.span)), self.line(b.span));
        let g = self.tcx.generics_of(self.tcx.typeck_root_def_id(d));
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(format!("[{},{}]", p.index, esc(p.name.as_str())));
            }
        }
        let _ = write!(s, ",\"generics\":[{}],\"argc\":{}", names.join(","), b.arg_count);
        let is_pub = self.tcx.effective_visibilities(()).is_reachable(ld);
        let _ = write!(s, ",\"reachable\":{}", is_pub);
        if let Some(imp) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(s, ",\"self_ty\":{}", st);
            let _ = write!(s, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
            if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"trait\":{},\"trait_args\":{}", esc(&self.path(tr.def_id)), self.args(tr.args));
            }
        } else if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait_default\":{}", esc(&self.path(tr)));
            let _ = write!(s, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
        } else if let Some(n) = self.tcx.opt_item_name(d) {
            let _ = write!(s, ",\"name\":{}", esc(n.as_str()));
        }
        let mut vn = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                vn.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(s, ",\"vars\":[{}]", vn.join(","));
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, ",\"locals\":[{}],\"blocks\":[", ls.join(","));
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let mut v = vec![];
            for st in &bb.statements {
                let l = self.line(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(x.0);
                        let r = self.rv(env, &x.1);
                        v.push(format!("[{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        v.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(**place),
                            variant_index.as_usize(),
                            l
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let u = |x: &UnwindAction| match x {
                UnwindAction::Cleanup(b) => b.as_usize() as i64,
                _ => -1,
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"switch\",{},[{}],{}]",
                        self.op(env, discr),
                        vs.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("[\"drop\",{},{},{}]", self.place(*place), target.as_usize(), u(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(env, &x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        self.op(env, func),
                        a.join(","),
                        self.place(*destination),
                        target.map(|x| x.as_usize() as i64).unwrap_or(-1),
                        u(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "divzero",
                        AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{}]",
                        self.op(env, cond),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
            };
            let _ = write!(s, "{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", v.join(","), ts, l, bb.is_cleanup);
        }
        s.push_str("]}");
        s
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // constants first: lowering a function may const-evaluate them and steal their MIR
        owners.sort_by_key(|d| {
            !matches!(
                tcx.def_kind(d.to_def_id()),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. }
            )
        });
        let mut bodies = vec![];
        for d in owners {
            // array-length and other anonymous constants carry no behaviour of their own
            if matches!(tcx.def_kind(d.to_def_id()), DefKind::AnonConst) {
                continue;
            }
            let b = tcx.mir_built(d);
            if b.is_stolen() {
                eprintln!("mirdump: stolen {:?}", d);
                continue;
            }
            bodies.push((d, b.borrow().clone()));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut d = D { tcx, tys: vec![], tymap: HashMap::new(), adts: HashMap::new(), adt_order: vec![] };
        let mut s = String::from("{\"bodies\":[\n");
        let mut first = true;
        for (ld, b) in &bodies {
            if !first {
                s.push_str(",\n");
            }
            first = false;
            s.push_str(&d.body(*ld, b));
        }
        s.push_str("],\n\"impls\":[");
        let mut iv = vec![];
        for (tr, impls) in tcx.all_local_trait_impls(()) {
            for i in impls {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let st = d.ty(st);
                let mut ms = vec![];
                for it in tcx.associated_items(i.to_def_id()).in_definition_order() {
                    ms.push(format!("{}:{}", esc(it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(&d.path(it.def_id))));
                }
                let ta = tcx.impl_opt_trait_ref(i.to_def_id()).map(|t| d.args(t.instantiate_identity().skip_norm_wip().args)).unwrap_or("[]".into());
                iv.push(format!(
                    "{{\"trait\":{},\"trait_args\":{},\"self\":{},\"items\":{{{}}}}}",
                    esc(&d.path(*tr)),
                    ta,
                    st,
                    ms.join(",")
                ));
            }
        }
        s.push_str(&iv.join(",\n"));
        s.push_str("],\n\"adts\":{");
        let mut av = vec![];
        for x in d.adt_order.clone() {
            av.push(format!("{}:{}", esc(&d.path(x)), d.adts[&x]));
        }
        s.push_str(&av.join(",\n"));
        s.push_str("},\n\"types\":[");
        s.push_str(&d.tys.join(",\n"));
        s.push_str("]}\n");
        let kind = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
        let f = format!("{}/{}.{}.json", out, krate, kind);
        std::fs::write(&f, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: wrapper rustc <args>
    args.remove(0);
    struct Plain;
    impl rustc_driver::Callbacks for Plain {}
    let code = rustc_driver::catch_with_exit_code(move || {
        let is_build = args.iter().any(|a| a == "build_script_build");
        if is_build {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        }
    });
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
