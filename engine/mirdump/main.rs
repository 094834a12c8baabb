// MIR dumper: a rustc driver that writes the type-checked MIR of the current crate as JSON.
// Used as RUSTC (or RUSTC_WORKSPACE_WRAPPER); output goes to $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("[\"prim\",\"{}\"]", t),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adts.entry(p.clone()).or_insert(def.did());
                let a = self.args(args);
                format!("[\"adt\",{},{}]", esc(&p), a)
            }
            ty::Ref(_, t, m) => { let x = self.ty(*t); format!("[\"ref\",{},{}]", if m.is_mut() { 1 } else { 0 }, x) }
            ty::RawPtr(t, m) => { let x = self.ty(*t); format!("[\"ptr\",{},{}]", if m.is_mut() { 1 } else { 0 }, x) }
            ty::Slice(t) => { let x = self.ty(*t); format!("[\"slice\",{}]", x) }
            ty::Array(t, n) => {
                let x = self.ty(*t);
                let n = match n.try_to_target_usize(self.tcx) { Some(v) => v.to_string(), None => esc(&format!("{}", n)) };
                format!("[\"array\",{},{}]", x, n)
            }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t)).collect(); format!("[\"tuple\",{}]", list(v)) }
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, esc(p.name.as_str())),
            ty::FnDef(d, args) => { let p = self.path(*d); let a = self.args(args.no_bound_vars().unwrap_or_else(|| ty::List::empty())); format!("[\"fndef\",{},{}]", esc(&p), a) }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let pa = self.args(args.as_closure().parent_args());
                format!("[\"closure\",{},{}]", esc(&p), pa)
            }
            ty::Coroutine(d, _) => { let p = self.path(*d); format!("[\"coroutine\",{}]", esc(&p)) }
            ty::CoroutineClosure(d, _) => { let p = self.path(*d); format!("[\"coclosure\",{}]", esc(&p)) }
            ty::Dynamic(..) => format!("[\"dyn\",{}]", esc(&with_no_trimmed_paths!(format!("{}", t)))),
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", esc(&with_no_trimmed_paths!(format!("{}", t)))),
            _ => format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(format!("{}", t)))),
        }
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(match c.try_to_target_usize(self.tcx) {
                    Some(n) => format!("[\"constv\",{}]", n),
                    None => format!("[\"constv\",{}]", esc(&format!("{}", c))),
                }),
                _ => {}
            }
        }
        list(v)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        for (base, e) in p.iter_projections() {
            if let ProjectionElem::Deref = e {
                // owning pointers are transparent
                if base.ty(&body.local_decls, self.tcx).ty.is_box() { continue; }
            }
            proj.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(&body.local_decls, self.tcx);
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match bt.variant_index { Some(v) => v, None => rustc_abi::FIRST_VARIANT };
                            if def.is_enum() && bt.variant_index.is_none() { format!("{}", f.as_u32()) }
                            else { def.variant(v).fields[f].name.to_string() }
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    format!("[\"f\",{},{}]", f.as_u32(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end as u8),
                ProjectionElem::Downcast(n, v) => format!("[\"d\",{},{}]", v.as_u32(), match n { Some(s) => esc(s.as_str()), None => "null".into() }),
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(proj))
    }
    fn bytes_hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tys = self.ty(t);
        let mut o = format!("{{\"k\":\"const\",\"ty\":{}", tys);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_u32());
                let pp = self.path(u.def); let _ = write!(o, ",\"pdef\":{}", esc(&pp));
            } else {
                let pp = self.path(u.def);
                let a = self.args(u.args);
                let _ = write!(o, ",\"name\":{},\"args\":{}", esc(&pp), a);
            }
        }
        if let ty::FnDef(..) = t.kind() { o.push('}'); return o; }
        let is_promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_promoted && !rustc_middle::ty::TypeVisitableExt::has_non_region_param(&c.const_) {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let Some(si) = v.try_to_scalar_int() {
                    if t.is_integral() || t.is_bool() || t.is_char() || t.is_enum() {
                        let _ = write!(o, ",\"int\":{}", si.to_bits(si.size()));
                    }
                } else if let ConstValue::Slice { .. } = v {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { let _ = write!(o, ",\"bytes\":\"{}\"", Self::bytes_hex(b)); }
                } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    // &[u8; N] or &static
                    let (prov, off) = ptr.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                            if let ty::Ref(_, it, _) = t.kind() {
                                if let ty::Array(et, _) = it.kind() {
                                    if et.is_integral() {
                                        let a = a.inner();
                                        let n = a.len();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                                        let _ = write!(o, ",\"bytes\":\"{}\"", Self::bytes_hex(b));
                                    }
                                }
                            }
                        }
                        rustc_middle::mir::interpret::GlobalAlloc::Static(d) => { let p = self.path(d); let _ = write!(o, ",\"static\":{}", esc(&p)); }
                        _ => {}
                    }
                } else if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let ty::Array(et, _) = t.kind() {
                        if et.is_integral() {
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                let a = a.inner();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                                let _ = write!(o, ",\"bytes\":\"{}\"", Self::bytes_hex(b));
                            }
                        }
                    }
                }
            }
        }
        let _ = write!(o, ",\"str\":{}}}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, c),
            _ => "{\"k\":\"rt\"}".into(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => { let n = match n.try_to_target_usize(self.tcx) { Some(v) => v.to_string(), None => esc(&format!("{}", n)) }; format!("[\"repeat\",{},{}]", self.operand(body, env, o), n) }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", match k { BorrowKind::Mut { .. } => 1, BorrowKind::Fake(_) => 2, _ => 0 }, self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => { let ot = o.ty(&body.local_decls, self.tcx); let a = self.ty(ot); let b = self.ty(*t); format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, env, o), a, b) }
            Rvalue::BinaryOp(op, b) => { let lt = b.0.ty(&body.local_decls, self.tcx); let t = self.ty(lt); format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1), t) }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, a)),
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let ts = self.ty(t); format!("[\"discr\",{},{}]", self.place(body, p), ts) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adts.entry(p.clone()).or_insert(*d);
                        let var = def.variant(*vi);
                        let fields: Vec<String> = match active { Some(f) => vec![esc(var.fields[*f].name.as_str())], None => var.fields.iter().map(|f| esc(f.name.as_str())).collect() };
                        let a = self.args(args);
                        format!("[\"adt\",{},{},{},{},{}]", esc(&p), vi.as_u32(), esc(var.name.as_str()), list(fields), a)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => format!("[\"coroutine\",{}]", esc(&self.path(*d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"copy\",\"p\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", rv))),
        }
    }
    fn callee(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, f: &Operand<'tcx>) -> String {
        if let Operand::Constant(c) = f {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                let args = args.no_bound_vars().unwrap_or_else(|| ty::List::empty());
                let p = self.path(*d);
                let a = self.args(args);
                let mut o = format!("{{\"path\":{},\"args\":{}", esc(&p), a);
                if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                    let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(self.tcx.item_name(*d).as_str()));
                }
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, *d, args) {
                    if inst.def_id() != *d || self.tcx.trait_of_assoc(*d).is_none() {
                        let rp = self.path(inst.def_id());
                        let ra = self.args(inst.args);
                        let _ = write!(o, ",\"res\":{},\"rargs\":{}", esc(&rp), ra);
                    }
                }
                o.push('}');
                return o;
            }
        }
        let t = f.ty(&body.local_decls, self.tcx);
        let ts = self.ty(t);
        format!("{{\"path\":null,\"fty\":{},\"op\":{}}}", ts, self.operand(body, env, f))
    }
    fn unwind(u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.as_u32().to_string(), _ => "null".into() } }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.entry(p.local.as_u32()).or_insert(v.name.to_string()); }
                else { let pl = self.place(body, &p); upv.push(format!("[{},{}]", esc(v.name.as_str()), pl)); }
            }
        }
        let mut ls = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            ls.push(format!("[{},{}]", t, match names.get(&l.as_u32()) { Some(n) => esc(n), None => "null".into() }));
        }
        let mut bs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(body, &b.0); let r = self.rvalue(body, env, &b.1); st.push(format!("[\"=\",{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(body, place); st.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32())); }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dts = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(body, env, discr), list(v), targets.otherwise().as_u32(), dts)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let c = self.callee(body, env, func);
                    let dp = self.place(body, destination);
                    format!("[\"call\",{},{},{},{},{}]", c, list(a), dp, match target { Some(t) => t.as_u32().to_string(), None => "null".into() }, Self::unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(body, env, len), self.operand(body, env, index)),
                        AssertKind::Overflow(op, a, b) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(body, env, a), self.operand(body, env, b)),
                        AssertKind::OverflowNeg(a) => format!("[\"neg\",{}]", self.operand(body, env, a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(body, env, a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(body, env, a)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(body, env, cond), *expected as u8, m, target.as_u32())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{}]", self.operand(body, env, value), resume.as_u32(), self.place(body, resume_arg)),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"other\"]".into(),
            };
            bs.push(format!("{{\"s\":{},\"t\":{},\"ln\":{},\"cl\":{}}}", list(st), t, self.line(term.source_info.span), bb.is_cleanup as u8));
        }
        format!("\"argc\":{},\"locals\":{},\"upvars\":{},\"blocks\":[\n{}]", body.arg_count, list(ls), list(upv), bs.join(",\n"))
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        let mut cur = Some(g);
        let mut stack = vec![];
        while let Some(g) = cur { stack.push(g); cur = g.parent.map(|p| self.tcx.generics_of(p)); }
        for g in stack.into_iter().rev() {
            for p in &g.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { v.push(format!("[{},{}]", p.index, esc(p.name.as_str()))); }
            }
        }
        list(v)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if let Ok(only) = std::env::var("MIRDUMP_CRATES") {
            if !only.split(',').any(|c| c == cname) { return Compilation::Continue; }
        }
        if cname == "build_script_build" { return Compilation::Continue; }
        dump(tcx, &out, &cname);
        Compilation::Continue
    }
}
fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, cname: &str) {
    let mut d = D { tcx, adts: BTreeMap::new() };
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
    let mut skipped = vec![];
    for &o in &owners {
        let kind = tcx.def_kind(o);
        if matches!(kind, DefKind::AnonConst) { continue; }   // its type is known only once the item around it has been lowered
        if tcx.typeck(o).tainted_by_errors.is_some() { skipped.push(esc(&d.path(o.to_def_id()))); continue; }
        let is_const = matches!(kind, DefKind::Const | DefKind::AssocConst | DefKind::Static { .. })
            || (matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) && tcx.is_const_fn(o.to_def_id()));
        if is_const { continue; }
        let (b, p) = tcx.mir_promoted(o);
        if b.is_stolen() || p.is_stolen() { skipped.push(esc(&d.path(o.to_def_id()))); continue; }
        bodies.push((o, b.borrow().clone(), p.borrow().iter().cloned().collect()));
    }
    for &o in &owners {
        let kind = tcx.def_kind(o);
        if matches!(kind, DefKind::AnonConst) { continue; }   // its type is known only once the item around it has been lowered
        if tcx.typeck(o).tainted_by_errors.is_some() { continue; }
        let isc = matches!(kind, DefKind::Const | DefKind::AssocConst | DefKind::Static { .. });
        let iscf = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) && tcx.is_const_fn(o.to_def_id());
        if isc || iscf {
            let b = tcx.mir_for_ctfe(o.to_def_id());
            let p = tcx.promoted_mir(o.to_def_id());
            bodies.push((o, b.clone(), p.iter().cloned().collect()));
        }
    }
    let mut fns = vec![];
    for (o, b, promoted) in bodies.iter() {
        let did = o.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let sm = tcx.sess.source_map();
        let span = tcx.def_span(did);
        let loc = sm.lookup_char_pos(span.lo());
        let file = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        let parent = tcx.parent(did);
        let mut extra = String::new();
        if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            let s = d.ty(st);
            let _ = write!(extra, ",\"impl_self\":{}", s);
            if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let a = d.args(tr.args);
                let _ = write!(extra, ",\"impl_trait\":{},\"impl_trait_args\":{}", esc(&d.path(tr.def_id)), a);
            }
            let _ = write!(extra, ",\"derived\":{}", tcx.is_builtin_derived(parent) as u8);
        }
        if matches!(tcx.def_kind(parent), DefKind::Trait) { let _ = write!(extra, ",\"in_trait\":{}", esc(&d.path(parent))); }
        let vis = match tcx.def_kind(did) { DefKind::Closure => "closure".to_string(), _ => format!("{:?}", tcx.visibility(did)) };
        let ps: Vec<String> = promoted.iter().map(|p| format!("{{{}}}", d.body(env, p))).collect();
        let kind = format!("{:?}", tcx.def_kind(did));
        let bs = d.body(env, b);
        let asyncness = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(did).is_async();
        let cor = tcx.is_coroutine(did);
        fns.push(format!("{{\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"vis\":{},\"async\":{},\"cor\":{},\"generics\":{}{},\"promoted\":[{}],{}}}",
            esc(&d.path(did)), esc(&kind), esc(&file), loc.line, esc(&vis), asyncness as u8, cor as u8, d.generics(did), extra, ps.join(","), bs));
    }
    // impls
    let mut impls = vec![];
    for (_tr, is) in tcx.all_local_trait_impls(()).iter() {
        for &i in is {
            let did = i.to_def_id();
            let Some(tr) = tcx.impl_opt_trait_ref(did) else { continue };
            let tr = tr.instantiate_identity().skip_norm_wip();
            let a = d.args(tr.args);
            let mut items = vec![];
            for it in tcx.associated_items(did).in_definition_order() {
                if let Some(n) = it.opt_name() { items.push(format!("[{},{}]", esc(n.as_str()), esc(&d.path(it.def_id)))); }
            }
            let span = tcx.def_span(did);
            let loc = tcx.sess.source_map().lookup_char_pos(span.source_callsite().lo());
            impls.push(format!("{{\"trait\":{},\"args\":{},\"generics\":{},\"items\":{},\"derived\":{},\"line\":{}}}", esc(&d.path(tr.def_id)), a, d.generics(did), list(items), tcx.is_builtin_derived(did) as u8, loc.line));
        }
    }
    // all local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let p = d.path(id.to_def_id());
            d.adts.entry(p).or_insert(id.to_def_id());
        }
    }
    let mut adts = vec![];
    let mut done = std::collections::BTreeSet::new();
    loop {
        let todo: Vec<(String, DefId)> = d.adts.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
        if todo.is_empty() { break; }
        for (p, id) in todo {
            done.insert(p.clone());
            let def = tcx.adt_def(id);
            if !id.is_local() && !def.is_enum() && def.all_fields().count() > 40 { continue; }
            let mut vs = vec![];
            if def.is_enum() {
                for (vi, dis) in def.discriminants(tcx) {
                    let v = def.variant(vi);
                    let fs: Vec<String> = v.fields.iter().map(|f| { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let ts = if id.is_local() { d.ty(t) } else { "null".into() }; format!("[{},{},{}]", esc(f.name.as_str()), ts, esc(&format!("{:?}", f.vis))) }).collect();
                    vs.push(format!("[{},{},{}]", esc(v.name.as_str()), dis.val, list(fs)));
                }
            } else {
                let v = def.non_enum_variant();
                let fs: Vec<String> = v.fields.iter().map(|f| { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); let ts = if id.is_local() { d.ty(t) } else { "null".into() }; format!("[{},{},{}]", esc(f.name.as_str()), ts, esc(&format!("{:?}", f.vis))) }).collect();
                vs.push(format!("[{},0,{}]", esc(v.name.as_str()), list(fs)));
            }
            adts.push(format!("{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"generics\":{},\"variants\":{}}}", esc(&p), if def.is_enum() { "enum" } else { "struct" }, id.is_local() as u8, d.generics(id), list(vs)));
        }
    }
    let s = format!("{{\"crate\":{},\"skipped\":{},\"fns\":[\n{}],\n\"impls\":[\n{}],\n\"adts\":[\n{}]}}", esc(cname), list(skipped), fns.join(",\n"), impls.join(",\n"), adts.join(",\n"));
    std::fs::create_dir_all(out).ok();
    std::fs::write(format!("{}/{}.json", out, cname), s).unwrap();
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
