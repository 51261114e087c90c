// MIR exporter. Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; after analysis it
// walks every monomorphic instance reachable from the functions named vp_root_* of the crate and
// writes bodies, types, constants and callees as JSON (the input of /verif/engine).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_hir;

use rustc_middle::mir::{self as imir, ConstValue};
use rustc_middle::ty::{self as ity, TyCtxt};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instmap: HashMap<Instance, usize>,
    fns: Vec<String>,
    fnmap: HashMap<Ty, usize>,
}

const STOP: &[&str] = &[
    "std::io", "std::fmt", "core::fmt", "alloc::fmt", "std::fs", "std::time", "std::vec", "alloc::vec",
    "alloc::raw_vec", "std::alloc", "alloc::alloc", "core::panicking", "std::rt", "std::panicking", "core::slice", "std::slice",
    "alloc::slice", "core::str", "std::str", "alloc::str", "std::string", "alloc::string", "std::path", "std::thread", "std::ffi", "std::sys", "std::os",
    "std::sync", "alloc::sync", "alloc::rc", "std::rc", "core::ptr", "std::ptr", "std::collections", "alloc::collections", "std::intrinsics",
    "std::env", "std::process", "std::hash", "core::hash",
];

impl<'tcx> Ctx<'tcx> {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.instmap.get(&i) { return *x; }
        let n = self.insts.len();
        self.insts.push(i);
        self.instmap.insert(i, n);
        n
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn func(&mut self, fty: Ty, def: FnDef, args: &GenericArgs) -> usize {
        if let Some(x) = self.fnmap.get(&fty) { return *x; }
        let n = self.fns.len();
        self.fns.push(String::new());
        self.fnmap.insert(fty, n);
        let a = self.args(args);
        let inst = Instance::resolve(def, args);
        let (iid, iname, vir) = match &inst {
            Ok(i) => (self.inst(*i).to_string(), i.name().to_string(), matches!(i.kind, InstanceKind::Virtual { .. })),
            Err(_) => ("null".into(), String::new(), false),
        };
        let intr = def.is_intrinsic();
        self.fns[n] = format!("{{\"decl\":{},\"krate\":{},\"args\":{},\"inst\":{},\"iname\":{},\"virtual\":{},\"intrinsic\":{}}}",
            q(&def.name().to_string()), q(&def.krate().name.to_string()), a, iid, q(&iname), vir, intr);
        n
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.tymap.get(&t) { return *x; }
        let n = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, n);
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".to_string(),
                RigidTy::Char => "{\"k\":\"char\"}".to_string(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true,\"name\":{}}}", i.num_bytes() * 8, q(&format!("{:?}", i).to_lowercase())),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false,\"name\":{}}}", i.num_bytes() * 8, q(&format!("{:?}", i).to_lowercase())),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"name\":{}}}", q(&format!("{:?}", f))),
                RigidTy::Str => "{\"k\":\"str\"}".to_string(),
                RigidTy::Never => "{\"k\":\"never\"}".to_string(),
                RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
                RigidTy::Array(e, c) => { let e = self.ty(e); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", e, m == Mutability::Mut) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{},\"mut\":{}}}", e, m == Mutability::Mut) }
                RigidTy::Tuple(v) => { let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v)) }
                RigidTy::FnDef(d, a) => { let f = self.func(t, d, &a); format!("{{\"k\":\"fndef\",\"fn\":{}}}", f) }
                RigidTy::Closure(_, _) => {
                    let it = internal(self.tcx, t);
                    if let ity::Closure(did, cargs) = it.kind() {
                        let kind = cargs.as_closure().kind();
                        let up: Vec<Ty> = cargs.as_closure().upvar_tys().iter().map(|u| stable(u)).collect();
                        let up: Vec<String> = up.into_iter().map(|u| self.ty(u).to_string()).collect();
                        let ii = ity::Instance::resolve_closure(self.tcx, *did, cargs, kind);
                        let si: Instance = stable(ii);
                        let id = self.inst(si);
                        format!("{{\"k\":\"closure\",\"inst\":{},\"f\":{},\"kind\":{}}}", id, arr(up), q(&format!("{:?}", kind)))
                    } else { unreachable!() }
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name().to_string();
                    let aa = self.args(&a);
                    let is_enum = d.kind().is_enum();
                    let local = d.krate().is_local;
                    // expand the fields of local ADTs and of the few library enums/structs whose layout the engine uses
                    let expand = local || is_enum || name.starts_with("core::") || name.starts_with("std::ops") || name.starts_with("std::num");
                    let mut vs = vec![];
                    if expand {
                        for v in d.variants_iter() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                let ft = self.ty(ft);
                                fs.push(format!("[{},{}]", q(&f.name.to_string()), ft));
                            }
                            let dis = if is_enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                            vs.push(format!("{{\"name\":{},\"discr\":{},\"f\":{}}}", q(&v.name().to_string()), dis, arr(fs)));
                        }
                    }
                    format!("{{\"k\":\"adt\",\"name\":{},\"enum\":{},\"local\":{},\"args\":{},\"v\":{}}}", q(&name), is_enum, local, aa, arr(vs))
                }
                other => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{:?}", other))),
            },
            other => format!("{{\"k\":\"other\",\"d\":{}}}", q(&format!("{:?}", other))),
        };
        self.tys[n] = s;
        n
    }

    fn cval(&mut self, cv: ConstValue, ty: ity::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 { return "{\"x\":\"depth\"}".into(); }
        match ty.kind() {
            ity::Bool => { if let Some(b) = cv.try_to_bool() { return format!("{}", b); } }
            ity::Int(_) | ity::Uint(_) | ity::Char => {
                if let Some(s) = cv.try_to_scalar_int() {
                    let size = s.size();
                    return match ty.kind() {
                        ity::Int(_) => format!("{{\"i\":{}}}", s.to_int(size)),
                        _ => format!("{{\"i\":{}}}", s.to_bits(size)),
                    };
                }
            }
            ity::Float(_) => {
                if let Some(s) = cv.try_to_scalar_int() { let size = s.size(); return format!("{{\"fl\":{},\"sz\":{}}}", s.to_bits(size), size.bytes()); }
            }
            ity::FnDef(..) | ity::Closure(..) => return "{\"z\":1}".into(),
            ity::Array(..) | ity::Tuple(..) | ity::Adt(..) => {
                if let ity::Adt(d, _) = ty.kind() { if d.is_union() { return "{\"x\":\"union\"}".into(); } }
                if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
                    let fs: Vec<String> = c.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return match ty.kind() {
                        ity::Array(..) => format!("{{\"a\":{}}}", arr(fs)),
                        ity::Tuple(..) => format!("{{\"t\":{}}}", arr(fs)),
                        _ => format!("{{\"adt\":{},\"f\":{}}}", c.variant.map(|v| v.as_usize()).unwrap_or(0), arr(fs)),
                    };
                }
            }
            ity::Ref(_, inner, _) | ity::RawPtr(inner, _) => {
                match inner.kind() {
                    ity::Str => {
                        if let Some(d) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"s\":{}}}", q(&String::from_utf8_lossy(d)));
                        }
                    }
                    ity::Slice(e) => {
                        if *e == tcx.types.u8 {
                            if let Some(d) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                                let v: Vec<String> = d.iter().map(|b| format!("{{\"i\":{}}}", b)).collect();
                                return format!("{{\"r\":{{\"a\":{}}}}}", arr(v));
                            }
                        }
                        if let ConstValue::Slice { alloc_id, meta } = cv {
                            let at = ity::Ty::new_array(tcx, *e, meta);
                            let iv = ConstValue::Indirect { alloc_id, offset: rustc_abi_size0() };
                            let s = self.cval(iv, at, depth + 1);
                            return format!("{{\"r\":{}}}", s);
                        }
                        if let ConstValue::Indirect { alloc_id, offset } = cv {
                            // a fat pointer stored in memory
                            let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                            let a = alloc.inner();
                            let ptr = a.read_scalar(&tcx, imir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()), true);
                            let len = a.read_scalar(&tcx, imir::interpret::alloc_range(offset + tcx.data_layout.pointer_size(), tcx.data_layout.pointer_size()), false);
                            if let (Ok(imir::interpret::Scalar::Ptr(p, _)), Ok(l)) = (ptr, len) {
                                let (prov, off) = p.into_raw_parts();
                                if let Ok(l) = l.to_target_usize(&tcx).report_err() {
                                    let at = ity::Ty::new_array(tcx, *e, l);
                                    let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                    let s = self.cval(iv, at, depth + 1);
                                    return format!("{{\"r\":{}}}", s);
                                }
                            }
                        }
                    }
                    _ => {
                        let sc = match cv {
                            ConstValue::Scalar(s) => Some(s),
                            ConstValue::Indirect { alloc_id, offset } => {
                                match tcx.global_alloc(alloc_id) {
                                    imir::interpret::GlobalAlloc::Memory(alloc) => {
                                        alloc.inner().read_scalar(&tcx, imir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()), true).ok()
                                    }
                                    _ => None,
                                }
                            }
                            _ => None,
                        };
                        if let Some(imir::interpret::Scalar::Ptr(p, _)) = sc {
                            let (prov, off) = p.into_raw_parts();
                            if let imir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                // scalars behind the pointer
                                let s = match inner.kind() {
                                    ity::Bool | ity::Int(_) | ity::Uint(_) | ity::Char | ity::Float(_) => {
                                        let alloc = tcx.global_alloc(prov.alloc_id()).unwrap_memory();
                                        let lay = tcx.layout_of(ity::TypingEnv::fully_monomorphized().as_query_input(*inner)).unwrap();
                                        match alloc.inner().read_scalar(&tcx, imir::interpret::alloc_range(off, lay.size), false) {
                                            Ok(s) => self.cval(ConstValue::Scalar(s), *inner, depth + 1),
                                            _ => "{\"x\":\"read\"}".into(),
                                        }
                                    }
                                    _ => self.cval(iv, *inner, depth + 1),
                                };
                                return format!("{{\"r\":{}}}", s);
                            }
                        }
                        if let ity::FnPtr(..) = inner.kind() { return "{\"x\":\"fnptr\"}".into(); }
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = cv { return "{\"z\":1}".into(); }
        "{\"x\":\"opaque\"}".into()
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Ty(tc) => tc.eval_target_usize().map(|x| format!("{{\"i\":{}}}", x)).unwrap_or("{\"x\":\"ty\"}".into()),
            ConstantKind::ZeroSized => "{\"z\":1}".to_string(),
            _ => {
                let ic = internal(self.tcx, c.clone());
                match ic {
                    imir::Const::Val(cv, ty) => self.cval(cv, ty, 0),
                    other => match other.eval(self.tcx, ity::TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                        Ok(cv) => { let ty = other.ty(); self.cval(cv, ty, 0) }
                        Err(_) => "{\"x\":\"noeval\"}".into(),
                    },
                }
            }
        };
        format!("[\"k\",{},{}]", t, v)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", internal(self.tcx, *v).as_usize()),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", q(&format!("{:?}", r))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, internal(self.tcx, *v).as_usize(), match f { Some(x) => x.to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); let t = self.ty(t); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(_, _) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(os))
            }
            Rvalue::BinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), x, y) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); format!("[\"cbin\",{},{},{}]", q(&format!("{:?}", b)), x, y) }
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), o, t) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", matches!(b, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, c) => { let o = self.op(o); format!("[\"rep\",{},{}]", o, c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
            Rvalue::UnaryOp(u, o) => { let o = self.op(o); format!("[\"un\",{},{}]", q(&format!("{:?}", u)), o) }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"x\",\"tls\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); ss.push(format!("[\"=\",{},{},{}]", p, r, s.source_info.span.get_lines().start_line)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(format!("[\"sd\",{},{}]", p, internal(self.tcx, *variant_index).as_usize())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("[\"x\",\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", d, arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, arr(a), d, match target { Some(t) => t.to_string(), None => "null".into() })
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => { let (l, i) = (self.op(len), self.op(index)); format!("[\"bounds\",{},{}]", l, i) }
                        AssertMessage::Overflow(b, ..) => format!("[\"overflow\",{}]", q(&format!("{:?}", b))),
                        AssertMessage::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        AssertMessage::DivisionByZero(_) => "[\"divzero\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"divzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"x\",\"asm\"]".into(),
            };
            bs.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(ss), t, line));
        }
        let file = b.span.get_filename().to_string();
        let li = b.span.get_lines();
        let sp = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        format!("{{\"locals\":{},\"argc\":{},\"blocks\":{},\"spread\":{},\"file\":{},\"lines\":[{},{}]}}", arr(locals), b.arg_locals().len(), arr(bs), sp, q(&file), li.start_line, li.end_line)
    }
}

fn rustc_abi_size0() -> rustc_abi::Size { rustc_abi::Size::ZERO }
extern crate rustc_abi;

fn analysis(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = match std::env::var("VP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let mut cx = Ctx { tcx, tys: vec![], tymap: HashMap::new(), insts: vec![], instmap: HashMap::new(), fns: vec![], fnmap: HashMap::new() };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("vp_root_") {
            if let Ok(inst) = Instance::try_from(it) {
                let id = cx.inst(inst);
                roots.push(format!("{}:{}", q(&last), id));
            }
        }
    }
    let mut i = 0;
    let mut outs = vec![];
    while i < cx.insts.len() {
        let inst = cx.insts[i];
        i += 1;
        let name = inst.name().to_string();
        let idef = inst.def;
        let kr = idef.krate();
        let local = kr.is_local;
        let dname = idef.name().to_string();
        let clean: String = dname.trim_start_matches('<').to_string();
        let is_std = ["core", "alloc", "std"].contains(&kr.name.to_string().as_str());
        let stop = STOP.iter().any(|s| clean.starts_with(s) || dname.starts_with(s) || dname.contains(&format!(" for {}", s)));
        let closure = format!("{:?}", inst.ty().kind()).contains("Closure(");
        let walk = local || (is_std && (!stop)) || (closure && local);
        let mut b = "null".to_string();
        if walk && !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic) && cx.insts.len() < 6000 {
            if inst.has_body() {
                if let Some(body) = inst.body() { b = cx.body(&body); }
            }
        }
        outs.push(format!("{{\"name\":{},\"def\":{},\"krate\":{},\"local\":{},\"shim\":{},\"body\":{}}}", q(&name), q(&dname), q(&kr.name.to_string()), local, matches!(inst.kind, InstanceKind::Shim), b));
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"roots\":{{{}}},\n\"types\":[{}],\n\"fns\":[{}],\n\"insts\":[{}]}}", roots.join(","), cx.tys.join(",\n"), cx.fns.join(",\n"), outs.join(",\n"));
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked by cargo as: driver <rustc> <args..>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && Some(w[1].clone()) == std::env::var("VP_CRATE").ok());
    if !is_target { unsafe { std::env::remove_var("VP_OUT"); } }
    let r = rustc_public::run_with_tcx!(&args, analysis);
    std::process::exit(match r { Ok(_) => 0, Err(rustc_public::CompilerError::Interrupted(_)) => 0, Err(rustc_public::CompilerError::Skipped) => 0, Err(_) => 1 });
}
