//! rustc driver that dumps the type-checked MIR of a crate as JSON facts.
//! Usage: FACTS_OUT=<file> facts-driver <rustc args>
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::{ExpnKind, Span};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String { let mut o = String::new(); esc(s, &mut o); o }
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    files: Vec<String>,
    tys: BTreeMap<String, usize>,
    tylist: Vec<String>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        self.note_adts(t);
        let s = with_no_trimmed_paths!(format!("{}", t));
        if let Some(i) = self.tys.get(&s) { return *i; }
        let i = self.tylist.len();
        self.tys.insert(s.clone(), i);
        self.tylist.push(s);
        i
    }
    fn note_adts(&mut self, t: Ty<'tcx>) {
        let t = t.peel_refs();
        if let ty::Adt(def, args) = t.kind() {
            self.adt(*def);
            for a in args.types() {
                if let ty::Adt(d, _) = a.peel_refs().kind() { self.adt(*d); }
            }
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) { return; }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        if def.is_enum() {
            for (i, d) in def.discriminants(self.tcx) {
                let v = def.variant(i);
                let fs = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                let ts = v.fields.iter().map(|f| q(&self.fty(f))).collect();
                vs.push(format!("[{},{},{},{}]", q(v.name.as_str()), q(&d.to_string()), arr(fs), arr(ts)));
            }
        } else {
            for v in def.variants() {
                let fs = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                let ts = v.fields.iter().map(|f| q(&self.fty(f))).collect();
                vs.push(format!("[{},\"0\",{},{}]", q(v.name.as_str()), arr(fs), arr(ts)));
            }
        }
        self.adts.insert(p, format!("{{\"enum\":{},\"variants\":{}}}", def.is_enum(), arr(vs)));
    }
    fn fty(&self, f: &ty::FieldDef) -> String {
        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn loc(&mut self, sp: Span) -> (String, u32) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line as u32)
    }
    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.files.iter().position(|x| *x == f) { return i; }
        self.files.push(f);
        self.files.len() - 1
    }
    /// Names of the macros a span comes from, outermost last.
    fn macros(&self, sp: Span) -> Vec<String> {
        let mut v = vec![];
        let mut s = sp;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            match d.kind {
                ExpnKind::Macro(_, n) => v.push(n.to_string()),
                ExpnKind::Desugaring(k) => v.push(format!("desugar:{:?}", k)),
                _ => {}
            }
            s = d.call_site;
        }
        v
    }
    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> String {
        let mut t = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        let mut o = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "*".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match t.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = t.variant_index.map(|i| def.variant(i)).unwrap_or_else(|| def.variants().iter().next().unwrap());
                            format!(".{}|{}", v.fields[f].name, self.path(def.did()))
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let n = d.as_local().and_then(|l| self.tcx.closure_saved_names_of_captured_variables(l).get(f).map(|s| s.to_string())).unwrap_or_default();
                            format!("^{}|{}", f.as_usize(), n)
                        }
                        _ => format!(".{}|", f.as_usize()),
                    };
                    name
                }
                ProjectionElem::Index(l) => format!("[{}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("#{}{}", if from_end { "-" } else { "" }, offset),
                ProjectionElem::Subslice { .. } => "#..".to_string(),
                ProjectionElem::Downcast(n, _) => format!("@{}", n.map(|n| n.to_string()).unwrap_or_default()),
                _ => "".to_string(),
            };
            if !s.is_empty() { o.push(q(&s)); }
            t = t.projection_ty(self.tcx, e);
        }
        arr(o)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, body: DefId) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"id\":{},\"p\":{}", q(&self.id(d)), q(&self.path(d)));
        let ga: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"ga\":{}", arr(ga));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{},\"m\":{}", q(&self.path(tr)), q(tcx.item_name(d).as_str()));
            let st = args.type_at(0);
            let _ = write!(o, ",\"st\":{}", self.ty(st));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let _ = write!(o, ",\"st\":{},\"m\":{}", self.ty(st), q(tcx.item_name(d).as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::non_body_analysis(tcx, body);
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = i.def_id();
                if rd != d {
                    let _ = write!(o, ",\"r\":{},\"rp\":{}", q(&self.id(rd)), q(&self.path(rd)));
                }
                if let ty::InstanceKind::Virtual(..) = i.def { o.push_str(",\"dyn\":1"); }
            }
        }
        o.push('}');
        o
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, body: DefId) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return format!("[\"fn\",{}]", self.callee(*d, a.skip_binder(), body));
        }
        let mut path = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            path = self.path(u.def);
        }
        let ti = self.ty(t);
        let env = ty::TypingEnv::non_body_analysis(self.tcx, body);
        let s = with_no_trimmed_paths!(match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => format!("{}", Const::Val(v, t)),
            Err(_) => format!("{}", c.const_),
        });
        format!("[\"k\",{},{},{}]", q(&s), ti, q(&path))
    }
    fn op(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, body: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, b)),
            Operand::Constant(c) => self.konst(c, body),
            _ => "[\"k\",\"?\",0,\"\"]".to_string(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, body: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, b, body)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o, b, body), q(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 }, self.place(p, b)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",1,{}]", self.place(p, b)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.op(o, b, body), self.ty(*t)),
            Rvalue::BinaryOp(k, x) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", k)), self.op(&x.0, b, body), self.op(&x.1, b, body)),
            Rvalue::UnaryOp(k, x) => format!("[\"un\",{},{}]", q(&format!("{:?}", k)), self.op(x, b, body)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                self.note_adts(t);
                let a = match t.kind() { ty::Adt(d, _) => self.path(d.did()), _ => String::new() };
                format!("[\"disc\",{},{}]", self.place(p, b), q(&a))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",1,{}]", self.place(p, b)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, b, body)).collect();
                let (kind, name, var, fields) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let v = def.variant(*vi);
                        let fs = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                        ("adt", self.path(*d), if def.is_enum() { v.name.to_string() } else { String::new() }, fs)
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => ("closure", self.id(*d), String::new(), vec![]),
                    AggregateKind::Coroutine(d, _) => ("coroutine", self.id(*d), String::new(), vec![]),
                    AggregateKind::RawPtr(..) => ("tuple", String::new(), String::new(), vec![]),
                };
                format!("[\"agg\",\"{}\",{},{},{},{}]", kind, q(&name), q(&var), arr(fields), arr(os))
            }
            other => format!("[\"other\",{}]", q(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, ldid: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = ldid.to_def_id();
        let (f, line) = self.loc(b.span);
        let end = tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().hi()).line;
        let fi = self.file(f);
        let mut o = format!("{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"end\":{},\"argc\":{}",
            q(&self.id(did)), q(&self.path(did)), q(&format!("{:?}", tcx.def_kind(did))), fi, line, end, b.arg_count);
        if tcx.is_closure_like(did) {
            let p = tcx.parent(did);
            let _ = write!(o, ",\"parent\":{}", q(&self.id(p)));
        }
        let mac = self.macros(b.span);
        if !mac.is_empty() { let _ = write!(o, ",\"mac\":{}", arr(mac.iter().map(|m| q(m)).collect())); }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"self\":{},\"m\":{}", self.ty(st), q(tcx.item_name(did).as_str()));
            if tcx.impl_is_of_trait(im) {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"tr\":{}", q(&self.path(tr.def_id)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"deftr\":{},\"m\":{}", q(&self.path(tr)), q(tcx.item_name(did).as_str()));
        }
        let vis = if tcx.is_closure_like(did) { "closure".to_string() } else { format!("{:?}", tcx.visibility(did)) };
        let _ = write!(o, ",\"vis\":{}", q(&vis));
        let locals: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(locals));
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { vars.push(format!("\"{}\":{}", p.local.as_usize(), q(v.name.as_str()))); }
            }
        }
        let _ = write!(o, ",\"vars\":{{{}}}", vars.join(","));
        let mut bbs = vec![];
        for (_bb, d) in b.basic_blocks.iter_enumerated() {
            if d.is_cleanup { bbs.push("null".to_string()); continue; }
            let mut ss = vec![];
            for s in &d.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let l = self.loc(s.source_info.span).1;
                        ss.push(format!("[{},{},{}]", self.place(&a.0, b), self.rv(&a.1, b, did), l));
                    }
                    StatementKind::SetDiscriminant { .. } => ss.push("[\"setdisc\"]".into()),
                    _ => {}
                }
            }
            let t = d.terminator();
            let l = self.loc(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", target.as_usize(), self.place(place, b)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", self.op(discr, b, did), arr(v), targets.otherwise().as_usize(), l, { let t = discr.ty(b, tcx); self.ty(t) })
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, b, did);
                    let a: Vec<String> = args.iter().map(|a| self.op(&a.node, b, did)).collect();
                    let m: Vec<String> = self.macros(t.source_info.span).iter().map(|m| q(m)).collect();
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), self.place(destination, b),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), l, arr(m))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(..) => "div0".into(),
                        AssertKind::RemainderByZero(..) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond, b, did), expected, q(&k), target.as_usize(), l)
                }
                TerminatorKind::Yield { resume, value, .. } => format!("[\"yield\",{},{}]", resume.as_usize(), self.op(value, b, did)),
                _ => "[\"unreachable\"]".into(),
            };
            bbs.push(format!("[[{}],{}]", ss.join(","), ts));
        }
        let _ = write!(o, ",\"bb\":{}}}", arr(bbs));
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("FACTS_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let skip: Vec<String> = std::env::var("FACTS_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut tainted: Vec<String> = vec![];
        let mut cx = Cx { tcx, files: vec![], tys: BTreeMap::new(), tylist: vec![], adts: BTreeMap::new() };
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
                _ => continue,
            }
            let (f, _) = cx.loc(tcx.def_span(did));
            if skip.iter().any(|s| f.starts_with(s.as_str())) { continue; }
            if cx.macros(tcx.def_span(did)).iter().any(|m| m == "mock" || m == "automock" || m.ends_with("::mock")) { continue; }
            let root = tcx.typeck_root_def_id_local(ldid);
            if tcx.typeck(root).tainted_by_errors.is_some() {
                tainted.push(format!("[{},{}]", q(&cx.id(did)), q(&cx.path(did))));
                continue;
            }
            let st = tcx.mir_built(ldid);
            let b = if st.is_stolen() {
                let s = tcx.mir_promoted(ldid).0;
                if s.is_stolen() { tcx.mir_for_ctfe(ldid).clone() } else { s.borrow().clone() }
            } else { st.borrow().clone() };
            if b.tainted_by_errors.is_some() {
                tainted.push(format!("[{},{}]", q(&cx.id(did)), q(&cx.path(did))));
                continue;
            }
            bodies.push((ldid, b));
        }
        let mut bs = vec![];
        for (l, b) in &bodies { bs.push(cx.body(*l, b)); }
        // impls of traits (for class-hierarchy resolution), traits with defaults
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait: true } => {
                    if cx.macros(tcx.def_span(did)).iter().any(|m| m == "mock" || m == "automock" || m.ends_with("::mock")) { continue; }
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let (f, line) = cx.loc(tcx.def_span(did));
                    let fi = cx.file(f);
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut ms = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        if let ty::AssocKind::Fn { .. } = a.kind { ms.push(format!("[{},{}]", q(a.name().as_str()), q(&cx.id(a.def_id)))); }
                    }
                    let t = cx.ty(st);
                    impls.push(format!("{{\"tr\":{},\"trid\":{},\"self\":{},\"ms\":{},\"file\":{},\"line\":{},\"mac\":{}}}", q(&cx.path(tr.def_id)), q(&cx.id(tr.def_id)), t, arr(ms), fi, line,
                        arr(cx.macros(tcx.def_span(did)).iter().map(|m| q(m)).collect())));
                }
                DefKind::Struct | DefKind::Enum => { let d = tcx.adt_def(did); cx.adt(d); }
                _ => {}
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"files\":{},\"types\":{},\"adts\":{{{}}},\"impls\":{},\"tainted\":{},\"bodies\":[\n{}\n]}}",
            q(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(cx.files.iter().map(|s| q(s)).collect()),
            arr(cx.tylist.iter().map(|s| q(s)).collect()),
            cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","),
            arr(impls), arr(tainted), bs.join(",\n"));
        std::fs::write(&out, o).expect("writing facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
