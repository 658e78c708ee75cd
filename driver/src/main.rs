// mirdump: a rustc driver that writes the type-checked, monomorphic MIR of the analysed crate
// (and of the std helper functions named in FOLLOW) as JSON.  It makes no judgement itself.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: String,
    types: BTreeMap<usize, Value>,
    allocs: BTreeMap<usize, Value>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    insts: Vec<Value>,
    inst_ids: HashMap<String, usize>,
    queue: VecDeque<(usize, Instance)>,
    generic: bool,
}

fn follow(name: &str) -> bool {
    // std helpers that are interpreted through their real bodies
    const P: &[&str] = &[
        "std::option::Option::", "core::option::Option::",
        "std::result::Result::", "core::result::Result::",
        "<std::option::Option<", "<std::result::Result<", "<core::option::Option<", "<core::result::Result<",
    ];
    P.iter().any(|p| name.starts_with(p))
        || name.contains("as std::convert::From<") || name.contains("as std::convert::Into<")
        || name.contains("as std::convert::TryInto<") || name.contains("as std::convert::TryFrom<")
        || name.contains("as std::ops::FnOnce") || name.contains("as std::ops::FnMut") || name.contains("as std::ops::Fn<")
        || name.contains("serde::Serialize for ") || name.contains("ser::Serialize for ") || name.contains("serde::Serializer>::is_human_readable") || name.contains("ser::Serializer::is_human_readable")
        || name.starts_with("std::cmp::Ordering::") || name.starts_with("std::bool::<impl bool>::then") || name.contains("<impl bool>::then")
        || name.contains("std::ops::Try>") || name.contains("FromResidual")
}

// size, field offsets and tag of a type with a known layout, to read its constants
fn layout(t: &Ty) -> Option<Value> {
    use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(_)) => {}
        _ => return None,
    }
    let l = t.layout().ok()?.shape();
    let offs = |f: &FieldsShape| -> Vec<usize> {
        match f { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] }
    };
    let v = match &l.variants {
        VariantsShape::Single { index } => json!({"one": index.to_index(), "f": offs(&l.fields)}),
        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
            let p = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
            let n = match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return None };
            let e = match tag_encoding {
                TagEncoding::Direct => json!(null),
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!([untagged_variant.to_index(),
                    niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start.to_string()]),
            };
            let vs: Vec<Vec<usize>> = variants.iter().map(|x| x.offsets.iter().map(|o| o.bytes()).collect()).collect();
            json!({"tag": [offs(&l.fields).get(*tag_field)?, n], "niche": e, "vs": vs})
        }
        _ => return None,
    };
    Some(json!([l.size.bytes(), v]))
}

fn bytes_json(a: &Allocation) -> Value {
    let b: Vec<Value> = a.bytes.iter().map(|x| match x { Some(v) => json!(*v), None => Value::Null }).collect();
    Value::Array(b)
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, s: Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn generic_args(&mut self, a: &GenericArgs) -> Value {
        let v: Vec<Value> = a.0.iter().map(|k| match k {
            GenericArgKind::Type(t) => self.ty(*t),
            GenericArgKind::Lifetime(_) => json!("'_"),
            GenericArgKind::Const(c) => json!(format!("{c:?}")),
        }).collect();
        Value::Array(v)
    }

    fn ty(&mut self, t: Ty) -> Value {
        let id = t.to_index();
        if self.types.contains_key(&id) { return json!(id); }
        self.types.insert(id, Value::Null);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","n":format!("{i:?}").to_lowercase()}),
                RigidTy::Uint(i) => json!({"k":"uint","n":format!("{i:?}").to_lowercase()}),
                RigidTy::Float(i) => json!({"k":"float","n":format!("{i:?}").to_lowercase()}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Slice(e) => json!({"k":"slice","e":self.ty(e)}),
                RigidTy::Array(e, n) => json!({"k":"array","e":self.ty(e),"n":n.eval_target_usize().ok()}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","e":self.ty(e),"m":format!("{m:?}")}),
                RigidTy::Ref(_, e, m) => json!({"k":"ref","e":self.ty(e),"mut":m==Mutability::Mut}),
                RigidTy::Tuple(ts) => { let v: Vec<Value> = ts.iter().map(|x| self.ty(*x)).collect(); json!({"k":"tuple","ts":v}) }
                RigidTy::FnDef(d, a) => {
                    let inst = if self.generic { None } else { Instance::resolve(d, &a).ok() };
                    let iid = inst.map(|i| self.inst(i));
                    json!({"k":"fndef","n":d.name().to_string(),"args":self.generic_args(&a),"inst":iid})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr","s":format!("{t}")}),
                RigidTy::Closure(d, a) => {
                    let mut insts = Map::new();
                    let own = if self.generic { None } else {
                        match rustc_public::rustc_internal::internal(self.tcx, t).kind() {
                            rustc_middle::ty::Closure(_, ia) => Some(format!("{:?}", ia.as_closure().kind())),
                            _ => None,
                        }
                    };
                    for (n, k) in [("Fn", ClosureKind::Fn), ("FnMut", ClosureKind::FnMut), ("FnOnce", ClosureKind::FnOnce)] {
                        if own.as_deref() != Some(n) { continue; }
                        if let Ok(i) = Instance::resolve_closure(d, &a, k) { insts.insert(n.to_string(), json!(self.inst(i))); }
                    }
                    json!({"k":"closure","n":d.name().to_string(),"args":self.generic_args(&a),"insts":insts})
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name().to_string();
                    let local = d.krate().is_local;
                    let targs = self.generic_args(&a);
                    let mut vs = vec![];
                    let kind = format!("{:?}", d.kind());
                    for v in d.variants() {
                        let discr = if kind == "Enum" { json!(d.discriminant_for_variant(v.idx()).val.to_string()) } else { json!("0") };
                        let deep = local || name.contains("Option") || name.contains("Result") || name.contains("ControlFlow")
                            || name.contains("IpAddr") || name.contains("host::Host") || name.contains("num::Wrapping")
                            || name.contains("Cow") || name.contains("ops::Range") || name.contains("cmp::Ordering") || name.contains("convert::Infallible") || kind=="Enum";
                        let mut fs = vec![];
                        if deep { for f in v.fields() { let ft = f.ty_with_args(&a); fs.push(json!([f.name.to_string(), self.ty(ft)])); } }
                        vs.push(json!({"n":v.name().to_string(),"d":discr,"f":fs}));
                    }
                    json!({"k":"adt","n":name,"s":format!("{t}"),"local":local,"ak":kind,"args":targs,"v":vs})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn","s":format!("{t}")}),
                o => json!({"k":"other","s":format!("{o:?}")}),
            },
            TyKind::Param(p) => json!({"k":"param","n":p.name.to_string()}),
            o => json!({"k":"other","s":format!("{o:?}")}),
        };
        let mut v = v;
        if !self.generic {
            if let (Some(o), Some(l)) = (v.as_object_mut(), layout(&t)) { o.insert("lay".into(), l); }
        }
        self.types.insert(id, v);
        json!(id)
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = i.mangled_name().to_string();
        if let Some(x) = self.inst_ids.get(&key) { return *x; }
        assert!(!self.generic);
        let n = self.insts.len();
        self.inst_ids.insert(key.clone(), n);
        self.insts.push(Value::Null);
        self.queue.push_back((n, i));
        n
    }

    fn alloc_id(&mut self, a: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(x) = self.alloc_ids.get(&a) { return *x; }
        let n = self.alloc_ids.len();
        self.alloc_ids.insert(a, n);
        let v = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => self.alloc(&m),
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
            GlobalAlloc::Static(s) => {
                // the contents of an immutable static are known; whether its type can change inside is the reader's question
                let mut v = json!({"static": s.name().to_string()});
                if let Ok(a) = s.eval_initializer() {
                    let x = self.alloc(&a);
                    v["b"] = x["b"].clone();
                    v["p"] = x["p"].clone();
                }
                v
            }
            GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
            _ => json!({"other":1}),
        };
        self.allocs.insert(n, v);
        n
    }

    fn alloc(&mut self, a: &Allocation) -> Value {
        let ptrs: Vec<Value> = a.provenance.ptrs.iter().map(|(o, p)| json!([*o, self.alloc_id(p.0)])).collect();
        json!({"b": bytes_json(a), "p": ptrs})
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let ty = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => json!({"t":ty,"z":1}),
            ConstantKind::Allocated(a) => { let v = self.alloc(a); json!({"t":ty,"a":v}) }
            o => json!({"t":ty,"o":format!("{o:?}")}),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => json!("*"),
            ProjectionElem::Field(f, t) => json!(["f", f, self.ty(*t)]),
            ProjectionElem::Index(l) => json!(["i", l]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
            ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
            ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
            ProjectionElem::OpaqueCast(t) => json!(["oc", self.ty(*t)]),
        }).collect();
        json!([p.local, pr])
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rc", format!("{r:?}")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.op(o)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", format!("{bk:?}"), self.place(p)]),
            Rvalue::Reborrow(_, _, p) => json!(["ref", "Reborrow", self.place(p)]),
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{k:?}"), self.op(o), self.ty(*t)]),
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{b:?}"), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{b:?}"), self.op(x), self.op(y)]),
            Rvalue::UnaryOp(u, x) => json!(["un", format!("{u:?}"), self.op(x)]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(_) => json!(["array"]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); json!(["adt", self.ty(t), v.to_index(), f]) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); json!(["closure", self.ty(t)]) }
                    o => json!(["other", format!("{o:?}")]),
                };
                let os: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                json!(["agg", kk, os])
            }
            o => json!(["other", format!("{o:?}")]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<Value> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Map::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.to_string(), json!(v.name.to_string())); }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(json!(["=", self.place(p), self.rvalue(r), self.span(s.source_info.span)])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(json!(["setd", self.place(place), variant_index.to_index()])),
                    StatementKind::StorageLive(..) | StatementKind::StorageDead(..) | StatementKind::Nop
                    | StatementKind::FakeRead(..) | StatementKind::AscribeUserType { .. } | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter | StatementKind::PlaceMention(..) => {}
                    StatementKind::Intrinsic(i) => st.push(json!(["intr", format!("{i:?}")])),
                    #[allow(unreachable_patterns)]
                    o => st.push(json!(["other", format!("{o:?}")])),
                }
            }
            let t = &bb.terminator;
            let sp = self.span(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["switch", self.op(discr), br, targets.otherwise()])
                }
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Drop { place, target, .. } => json!(["drop", self.place(place), target]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    let f = self.op(func);
                    json!(["call", f, a, self.place(destination), target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<Value>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![self.op(x), self.op(y)]),
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x)]),
                        AssertMessage::DivisionByZero(x) => ("divzero".into(), vec![self.op(x)]),
                        AssertMessage::RemainderByZero(x) => ("remzero".into(), vec![self.op(x)]),
                        o => (format!("{o:?}"), vec![]),
                    };
                    json!(["assert", self.op(cond), expected, k, ops, target])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s": st, "t": tk, "sp": sp}));
        }
        json!({"locals": locals, "argc": b.arg_locals().len(), "names": names, "blocks": blocks, "span": self.span(b.span)})
    }

    fn run(&mut self) -> Value {
        let mut items = vec![];
        let mut generic = vec![];
        let mut seen = HashSet::new();
        let mut gens = vec![];
        for it in rustc_public::all_local_items() {
            let name = it.name().to_string();
            let did = rustc_public::rustc_internal::internal(self.tcx, it.def_id());
            let vis = self.tcx.effective_visibilities(()).is_reachable(did.expect_local());
            let kind = format!("{:?}", it.kind());
            let mono = !it.requires_monomorphization();
            let mut iid = Value::Null;
            if mono && kind.contains("Fn") {
                if let Ok(i) = Instance::try_from(it) { iid = json!(self.inst(i)); }
            } else if kind.contains("Fn") && seen.insert(name.clone()) {
                if it.has_body() { gens.push((name.clone(), it)); }
            }
            items.push(json!({"n": name, "kind": kind, "pub": vis, "mono": mono, "inst": iid, "span": self.span(it.span())}));
        }
        while let Some((n, i)) = self.queue.pop_front() {
            let name = i.name().to_string();
            let def_name = i.def.name().to_string();
            let krate = i.def.krate();
            let local = krate.is_local;
            let t = i.ty();
            let kind = format!("{:?}", i.kind);
            let mut body = Value::Null;
            if (local || follow(&name) || matches!(i.kind, InstanceKind::Shim)) && i.has_body() {
                if let Some(b) = i.body() { body = self.body(&b); }
            }
            let tyv = self.ty(t);
            let args = self.generic_args(&i.args());
            let did = rustc_public::rustc_internal::internal(self.tcx, i.def.def_id());
            let mut docpanic = false;
            let mut unsafe_ = false;
            if self.tcx.def_kind(did).is_fn_like() && !self.tcx.is_closure_like(did) {
                unsafe_ = !self.tcx.fn_sig(did).skip_binder().safety().is_safe();
                if !local {
                    let attrs = self.tcx.get_all_attrs(did);
                    for a in attrs { if format!("{a:?}").contains("# Panics") { docpanic = true; } }
                }
            }
            let tracked = i.requires_caller_location();
            let (ret, params) = match i.fn_abi() {
                Ok(a) => (self.ty(a.ret.ty), a.args.iter().map(|x| self.ty(x.ty)).collect::<Vec<Value>>()),
                Err(_) => (Value::Null, vec![]),
            };
            self.insts[n] = json!({"n": name, "d": def_name, "crate": krate.name.to_string(), "local": local, "kind": kind, "ty": tyv,
                "args": args, "body": body, "track": tracked, "ret": ret, "params": params, "unsafe": unsafe_, "docpanic": docpanic, "span": self.span(i.def.span())});
        }
        self.generic = true;
        for (name, it) in gens { if let Some(b) = it.body() { let j = self.body(&b); generic.push(json!({"n": name, "body": j})); } }
        let types: Map<String, Value> = self.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let allocs: Map<String, Value> = self.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let insts = std::mem::take(&mut self.insts);
        json!({"crate": self.local, "items": items, "generic": generic, "insts": insts, "types": types, "allocs": allocs})
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "webrtc_sdp") && !args.iter().any(|a| a == "--test");
    if let (Some(out), true) = (out, is_target) {
        for e in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Zalways-encode-mir"] { args.push(e.to_string()); }
        let r = run_with_tcx!(&args, |tcx: TyCtxt<'_>| -> ControlFlow<(), ()> {
            let krate = rustc_public::local_crate();
            let mut d = Dump { tcx, local: krate.name.to_string(), types: BTreeMap::new(), allocs: BTreeMap::new(), alloc_ids: HashMap::new(),
                insts: vec![], inst_ids: HashMap::new(), queue: VecDeque::new(), generic: false };
            let v = d.run();
            std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
            ControlFlow::Continue(())
        });
        match r { Ok(_) => std::process::exit(0), Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1) } }
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
