// mirdump: a rustc driver that dumps, as JSON, the monomorphic optimised-off MIR of every function
// reachable from the local `pub fn`s whose path matches a prefix (env MIRDUMP_ROOTS, comma separated),
// together with types, layouts and evaluated constants.  Nothing is interpreted here.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
extern crate rustc_public_bridge;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Cx {
    tys: HashSet<usize>,
    ty_queue: VecDeque<Ty>,
    ty_out: BTreeMap<usize, String>,
    fn_seen: HashSet<String>,
    fn_queue: VecDeque<Instance>,
    fn_out: Vec<String>,
    al_seen: HashSet<usize>,
    al_out: Vec<String>,
    stop: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let i = t.to_index();
        if self.tys.insert(i) {
            self.ty_queue.push_back(t);
        }
        i
    }
    fn inst(&mut self, i: Instance) -> String {
        let m = i.mangled_name().to_string();
        let key = match i.kind {
            InstanceKind::Item => m,
            InstanceKind::Intrinsic => format!("I:{}", m),
            InstanceKind::Shim => format!("S:{}:{}", m, i.ty().to_index()),
            InstanceKind::Virtual { idx } => format!("V{}:{}", idx, m),
            InstanceKind::LlvmIntrinsic => format!("L:{}", m),
        };
        if self.fn_seen.insert(key.clone()) {
            self.fn_queue.push_back(i);
        }
        key
    }
    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut s = String::from("{\"b\":\"");
        for b in &a.bytes {
            match b {
                Some(b) => { let _ = write!(s, "{:02x}", b); }
                None => s.push_str("__"),
            }
        }
        s.push_str("\",\"p\":[");
        for (n, (off, prov)) in a.provenance.ptrs.iter().enumerate() {
            if n > 0 { s.push(','); }
            let id = self.alloc_id(prov.0);
            let _ = write!(s, "[{},{}]", off, id);
        }
        s.push_str("]}");
        s
    }
    fn alloc_id(&mut self, id: AllocId) -> usize {
        let i = id.to_index();
        if self.al_seen.insert(i) {
            let body = match GlobalAlloc::from(id) {
                GlobalAlloc::Memory(a) => format!("\"k\":\"mem\",\"a\":{}", self.alloc_json(&a)),
                GlobalAlloc::Static(d) => {
                    let t = self.ty(d.ty());
                    let a = match d.eval_initializer() {
                        Ok(a) => self.alloc_json(&a),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"static\",\"name\":{},\"ty\":{},\"a\":{}", js(&d.name()), t, a)
                }
                GlobalAlloc::Function(i) => format!("\"k\":\"fn\",\"inst\":{}", js(&self.inst(i))),
                GlobalAlloc::VTable(t, _) => format!("\"k\":\"vtable\",\"ty\":{}", self.ty(t)),
                GlobalAlloc::TypeId { .. } => "\"k\":\"typeid\"".to_string(),
            };
            self.al_out.push(format!("{}:{{{}}}", js(&i.to_string()), body));
        }
        i
    }
    fn tyconst_len(c: &TyConst) -> String {
        match c.eval_target_usize() { Ok(n) => n.to_string(), Err(_) => "null".into() }
    }
    fn layout(&mut self, t: Ty) -> String {
        let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return "null".into() };
        let offs = |o: &Vec<rustc_public::target::MachineSize>| {
            format!("[{}]", o.iter().map(|x| x.bytes().to_string()).collect::<Vec<_>>().join(","))
        };
        let f = match &sh.fields {
            FieldsShape::Primitive => "\"prim\"".to_string(),
            FieldsShape::Union(_) => "\"union\"".to_string(),
            FieldsShape::Array { stride, count } => format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets } => offs(offsets),
        };
        let v = match &sh.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let p = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
                let (bytes, signed) = match p {
                    Primitive::Int { length, signed } => (length.bits() / 8, *signed),
                    Primitive::Pointer(_) => (8, false),
                    Primitive::Float { length } => (length.bits() / 8, false),
                };
                let tag_off = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                        untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                let vs: Vec<String> = variants.iter().map(|x| offs(&x.offsets)).collect();
                format!("{{\"tag_off\":{},\"tag_bytes\":{},\"tag_signed\":{},\"enc\":{},\"variants\":[{}]}}",
                    tag_off, bytes, signed, enc, vs.join(","))
            }
        };
        format!("{{\"size\":{},\"fields\":{},\"variants\":{}}}", sh.size.bytes(), f, v)
    }
    fn emit_ty(&mut self, t: Ty) {
        let k = t.kind();
        let TyKind::RigidTy(r) = k.clone() else {
            self.ty_out.insert(t.to_index(), format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", k))));
            return;
        };
        let mut lay = true;
        let s = match &r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("\"k\":\"float\",\"s\":{}", js(&format!("{:?}", f))),
            RigidTy::Adt(d, args) => {
                let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let mut vs = vec![];
                for (n, v) in d.variants().into_iter().enumerate() {
                    let fs: Vec<String> = v.fields().iter().map(|f| { let ft = f.ty_with_args(args); self.ty(ft).to_string() }).collect();
                    let fnames: Vec<String> = v.fields().iter().map(|f| js(&f.name.to_string())).collect();
                    let discr = if kind == "enum" { d.discriminant_for_variant(VariantIdx::to_val(n)).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"tys\":[{}],\"fields\":[{}]}}", js(&v.name().to_string()), discr, fs.join(","), fnames.join(",")));
                }
                let targs: Vec<String> = args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
                format!("\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"args\":[{}],\"variants\":[{}]", kind, js(&d.name()), targs.join(","), vs.join(","))
            }
            RigidTy::Str => { lay = false; "\"k\":\"str\"".into() }
            RigidTy::Array(e, n) => format!("\"k\":\"array\",\"ty\":{},\"len\":{}", self.ty(*e), Self::tyconst_len(n)),
            RigidTy::Slice(e) => { lay = false; format!("\"k\":\"slice\",\"ty\":{}", self.ty(*e)) }
            RigidTy::RawPtr(e, _) => format!("\"k\":\"ptr\",\"ty\":{}", self.ty(*e)),
            RigidTy::Ref(_, e, _) => format!("\"k\":\"ref\",\"ty\":{}", self.ty(*e)),
            RigidTy::FnDef(d, args) => {
                let i = Instance::resolve(*d, args);
                match i {
                    Ok(i) => format!("\"k\":\"fndef\",\"inst\":{}", js(&self.inst(i))),
                    Err(_) => format!("\"k\":\"fndef\",\"inst\":null,\"s\":{}", js(&d.name())),
                }
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(_, args) => {
                // last generic argument is the tuple of captured types
                let up = args.0.iter().rev().find_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None });
                let tys = match up.map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts,
                    _ => vec![],
                };
                let v: Vec<String> = tys.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"closure\",\"tys\":[{}]", v.join(","))
            }
            RigidTy::Dynamic(..) => { lay = false; "\"k\":\"dyn\"".into() }
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":[{}]", v.join(","))
            }
            RigidTy::Pat(b, _) => format!("\"k\":\"pat\",\"ty\":{}", self.ty(*b)),
            o => format!("\"k\":\"other\",\"s\":{}", js(&format!("{:?}", o))),
        };
        let l = if lay { self.layout(t) } else { "null".into() };
        self.ty_out.insert(t.to_index(), format!("{{{},\"d\":{},\"lay\":{}}}", s, js(&t.to_string()), l));
    }
    fn place(&mut self, p: &Place) -> String {
        let mut s = format!("[{}", p.local);
        for e in &p.projection {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(i, t) => { let _ = write!(s, "[\"f\",{},{}]", i, self.ty(*t)); }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"c\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"s\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(v) => { let _ = write!(s, "[\"d\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(_) => s.push_str("[\"o\"]"),
            }
        }
        s.push(']');
        s
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::RuntimeChecks(k) => format!("{{\"rc\":{}}}", js(&format!("{:?}", k))),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc_json(a),
                    ConstantKind::ZeroSized => "\"zst\"".into(),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(_, a) => self.alloc_json(a),
                        TyConstKind::ZSTValue(_) => "\"zst\"".into(),
                        o => js(&format!("?{:?}", o)),
                    },
                    o => js(&format!("?{:?}", o)),
                };
                format!("{{\"k\":{},\"t\":{}}}", v, t)
            }
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let x: Vec<String> = v.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", x.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(b, BorrowKind::Mut { .. }) as u8),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, os) => {
                let o = self.ops(os);
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), match f { Some(f) => f.to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(*d, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, o)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(b, x) => format!("[\"un\",\"{:?}\",{}]", b, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let ft = match o.ty(locals) { Ok(t) => self.ty(t).to_string(), Err(_) => "null".into() };
                // closures / fn items coerced to pointers need their instance
                let mut inst = "null".to_string();
                if let CastKind::PointerCoercion(pc) = k {
                    if let Ok(t0) = o.ty(locals) {
                        match (pc, t0.kind()) {
                            (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { inst = js(&self.inst(i)); }
                            }
                            (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { inst = js(&self.inst(i)); }
                            }
                            _ => {}
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o), self.ty(*t), ft, inst)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), Self::tyconst_len(n)),
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        }
    }
    fn loc(sp: Span) -> String {
        let f = sp.get_filename().to_string();
        let l = sp.get_lines();
        format!("{}:{}:{}", f, l.start_line, l.start_col)
    }
    fn uw(u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() }
    }
    fn emit_fn(&mut self, i: Instance) {
        let key = {
            let m = i.mangled_name().to_string();
            match i.kind {
                InstanceKind::Item => m,
                InstanceKind::Intrinsic => format!("I:{}", m),
                InstanceKind::Shim => format!("S:{}:{}", m, i.ty().to_index()),
                InstanceKind::Virtual { idx } => format!("V{}:{}", idx, m),
                InstanceKind::LlvmIntrinsic => format!("L:{}", m),
            }
        };
        let name = i.name().to_string();
        let args: Vec<String> = i.args().0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            _ => None,
        }).collect();
        let mut s = format!("{}:{{\"name\":{},\"kind\":\"{:?}\",\"args\":[{}],\"intr\":{}", js(&key), js(&name), i.kind, args.join(","),
            match i.intrinsic_name() { Some(n) => js(&n.to_string()), None => "null".into() });
        let crate_name = i.def.krate().name.to_string();
        let _ = write!(s, ",\"crate\":{},\"track\":{}", js(&crate_name), i.requires_caller_location());
        if let InstanceKind::Item = i.kind { let _ = write!(s, ",\"span\":{}", js(&Self::loc(i.def.span()))); }
        let stopped = self.stop.iter().any(|p| {
            if let Some(p) = p.strip_prefix('=') { name == p } else { name.starts_with(p.as_str()) }
        });
        let has = i.has_body() || i.kind == InstanceKind::Shim;
        let _ = write!(s, ",\"stopped\":{}", stopped);
        if stopped {
            // signature only
            let sig = i.ty().kind().fn_sig().filter(|b| b.bound_vars.is_empty()).map(|b| b.skip_binder());
            if let Some(sig) = sig {
                let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let o = self.ty(sig.output());
                let _ = write!(s, ",\"sig\":[[{}],{}]", ins.join(","), o);
            }
        }
        let body = if stopped || !has { None } else { i.body() };
        let Some(body) = body else {
            s.push_str(",\"body\":null}");
            self.fn_out.push(s);
            return;
        };
        let locals = body.locals().to_vec();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let vars: Vec<String> = body.var_debug_info.iter().filter_map(|v| v.local().map(|l| format!("[{},{}]", js(&v.name), l))).collect();
        let _ = write!(s, ",\"argc\":{},\"spread\":{},\"locals\":[{}],\"vars\":[{}],\"body\":[", body.arg_locals().len(),
            match body.spread_arg() { Some(l) => l.to_string(), None => "null".into() }, ls.join(","), vars.join(","));
        for (n, bb) in body.blocks.iter().enumerate() {
            if n > 0 { s.push(','); }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, &locals)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!("[\"assume\",{}]", self.operand(o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!("[\"cpy\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let sp = bb.terminator.source_info.span;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let b: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), b.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => format!("[\"unreach\",{}]", js(&Self::loc(sp))),
                TerminatorKind::Drop { place, target, .. } => {
                    let g = match place.ty(&locals) {
                        Ok(t) => { let d = Instance::resolve_drop_in_place(t); if d.is_empty_shim() { "null".into() } else { js(&self.inst(d)) } }
                        Err(_) => "\"?\"".into(),
                    };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, g)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    let f = self.operand(func);
                    let dt = destination.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"call\",{},{},{},{},{},{},{},{}]", f, ft, self.ops(args), self.place(destination),
                        match target { Some(t) => t.to_string(), None => "null".into() }, js(&Self::loc(sp)), dt, Self::uw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, _, _) => format!("overflow-{:?}", b),
                        AssertMessage::OverflowNeg(_) => "overflow-Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div-by-zero".into(),
                        AssertMessage::RemainderByZero(_) => "rem-by-zero".into(),
                        o => format!("{:?}", o).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("assert").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, target, js(&d), js(&Self::loc(sp)))
                }
                o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push_str("]}");
        self.fn_out.push(s);
    }
}

fn dump() -> ControlFlow<()> {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if rustc_public::local_crate().name.to_string() != want {
        return ControlFlow::Continue(());
    }
    let roots = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
    let roots: Vec<&str> = roots.split(',').filter(|s| !s.is_empty()).collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx::default();
    if let Ok(f) = std::env::var("MIRDUMP_STOP") {
        cx.stop = std::fs::read_to_string(f).unwrap().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    }
    let mut rs = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn { continue; }
        let name = item.name().to_string();
        let last = name.rsplit("::").next().unwrap().to_string();
        if last == "dispatch" || name.contains('{') || !roots.iter().any(|r| name.contains(*r)) { continue; }
        if let Ok(i) = Instance::try_from(CrateItem(item.def_id())) {
            let k = cx.inst(i);
            rs.push(format!("{}:{}", js(&name), js(&k)));
        }
    }
    loop {
        if let Some(i) = cx.fn_queue.pop_front() { cx.emit_fn(i); continue; }
        if let Some(t) = cx.ty_queue.pop_front() { cx.emit_ty(t); continue; }
        break;
    }
    let mut s = String::new();
    s.push_str("{\"roots\":{");
    s.push_str(&rs.join(",\n"));
    s.push_str("},\n\"fns\":{");
    s.push_str(&cx.fn_out.join(",\n"));
    s.push_str("},\n\"allocs\":{");
    s.push_str(&cx.al_out.join(",\n"));
    s.push_str("},\n\"types\":{");
    s.push_str(&cx.ty_out.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("}}\n");
    std::fs::write(out, s).unwrap();
    ControlFlow::Break(())
}

fn main() {
    // used as RUSTC_WRAPPER-style "rustc": argv = [mirdump, rustc, args...] or [mirdump, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !args.iter().any(|a| a == "-vV");
    if !is_target {
        let st = std::process::Command::new(std::env::var("MIRDUMP_RUSTC").unwrap_or("rustc".into())).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, dump);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(e) => { eprintln!("mirdump: compiler failed: {:?}", e); std::process::exit(1); }
    }
}
#[allow(dead_code)]
fn _unused(_: HashMap<u8, u8>) {}
