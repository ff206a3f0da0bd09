// mirfacts: a rustc driver that writes the type-checked program of the crate
// being compiled (instance-resolved MIR, types, impls, unsafe uses) as JSON.
// It analyses nothing itself; /verif/sa decides properties from these facts.
#![feature(rustc_private)]
#![allow(rustc::potential_query_instability)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate serde_json;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use serde_json::{Map, Value, json};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb;

// std functions whose MIR body is exported too, so that the analysis can look
// through them (conversions and Option/Result combinators).
fn transparent(path: &str) -> bool {
    let p = path;
    (p.starts_with("std::option::Option::<")
        || p.starts_with("std::result::Result::<")
        || p.starts_with("core::convert::")
        || p.starts_with("std::convert::")
        || p.contains(" as std::convert::TryInto<")
        || p.contains(" as std::convert::TryFrom<")
        || p.contains(" as std::convert::Into<")
        || p.contains(" as std::convert::From<")
        || p.contains("<impl str>::parse")
        || p.contains("std::ops::Try>::")
        || p.contains("std::ops::FromResidual<"))
        && !p.contains("std::io::") && !p.contains("alloc::")
}

type Key<'tcx> = (Instance<'tcx>, DefId);

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    tymap: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<Key<'tcx>, String>,
    names: HashMap<String, Key<'tcx>>,
    queue: VecDeque<Key<'tcx>>,
    env_def: DefId,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, a))
    }
    fn env(&self) -> TypingEnv<'tcx> {
        if self.env_def.is_crate_root() { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(self.tcx, self.env_def) }
    }
    fn span(&self, sp: Span) -> Value {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return Value::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        json!([f, lo.line, lo.col.0 + 1, hi.line])
    }

    fn want(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let def = inst.def_id();
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                let i2 = Instance { def: ty::InstanceKind::Item(closure), args: inst.args };
                return self.want(i2);
            }
            _ => return None,
        }
        let inst = Instance { def: ty::InstanceKind::Item(def), args: inst.args };
        if !matches!(self.tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            return None;
        }
        if matches!(self.tcx.def_kind(def), DefKind::Ctor(..)) {
            return None;
        }
        if !def.is_local() && !transparent(&self.path(def)) {
            return None;
        }
        if !self.tcx.is_mir_available(def) {
            return None;
        }
        // a fully concrete instance needs no caller environment: one copy of it
        let env_def = if inst.args.has_param() { self.env_def } else {
            LocalDefId { local_def_index: rustc_hir::def_id::CRATE_DEF_INDEX }.to_def_id()
        };
        let key = (inst, env_def);
        if let Some(k) = self.keys.get(&key) {
            return Some(k.clone());
        }
        if inst.args.iter().any(|a| a.walk().count() > 200) || self.keys.len() > 6000 {
            return None;
        }
        let mut name = self.path_args(def, inst.args);
        if !def.is_local() {
            name = format!("std!{}", name);
        }
        if self.names.contains_key(&name) {
            let b = name.clone();
            let mut i = 1;
            while self.names.contains_key(&name) {
                name = format!("{}~{}", b, i);
                i += 1;
            }
        }
        self.names.insert(name.clone(), key);
        self.keys.insert(key, name.clone());
        self.queue.push_back(key);
        Some(name)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(Value::Null);
        self.tymap.insert(t, i);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let v = match t.kind() {
            ty::Bool => json!({"k":"bool"}),
            ty::Char => json!({"k":"char"}),
            ty::Int(_) => json!({"k":"int"}),
            ty::Uint(_) => json!({"k":"uint"}),
            ty::Float(_) => json!({"k":"float"}),
            ty::Str => json!({"k":"str"}),
            ty::Never => json!({"k":"never"}),
            ty::Adt(d, a) => {
                let args: Vec<_> = a.types().map(|x| self.ty(x)).collect();
                let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                let mut o = json!({"k":"adt","adt":self.path(d.did()),"args":args,"kind":kind,"local":d.did().is_local()});
                let isopt = d.is_enum();
                if d.did().is_local() || isopt {
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let fs: Vec<_> = v.fields.iter().map(|f| {
                            let ft = self.tcx.normalize_erasing_regions(self.env(), f.ty(self.tcx, a));
                            let ti = self.ty(ft);
                            json!({"n":f.name.to_string(),"ty":ti})
                        }).collect();
                        let dv = if d.is_enum() { d.discriminant_for_variant(self.tcx, vi).val as u64 } else { 0 };
                        vs.push(json!({"n":v.name.to_string(),"d":dv,"fields":fs}));
                    }
                    o["variants"] = Value::Array(vs);
                }
                o
            }
            ty::Ref(_, x, m) => { let e = self.ty(*x); json!({"k":"ref","to":e,"mut":m.is_mut()}) }
            ty::RawPtr(x, _) => { let e = self.ty(*x); json!({"k":"ptr","to":e}) }
            ty::Slice(x) => { let e = self.ty(*x); json!({"k":"slice","el":e}) }
            ty::Array(x, n) => {
                let e = self.ty(*x);
                json!({"k":"array","el":e,"n":n.try_to_target_usize(self.tcx)})
            }
            ty::Tuple(xs) => { let v: Vec<_> = xs.iter().map(|x| self.ty(x)).collect(); json!({"k":"tuple","el":v}) }
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                self.fn_info(*d, a)
            }
            ty::Closure(d, a) => {
                let up: Vec<_> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let inst = Instance { def: ty::InstanceKind::Item(*d), args: a };
                let k = self.want(inst);
                json!({"k":"closure","inst":k,"def":self.path(*d),"up":up,"kind":format!("{:?}", a.as_closure().kind())})
            }
            ty::FnPtr(..) => json!({"k":"fnptr"}),
            ty::Dynamic(..) => json!({"k":"dyn"}),
            ty::Param(_) => json!({"k":"param"}),
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v["s"] = json!(s);
        self.types[i] = v;
        i
    }

    fn fn_info(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Value {
        let mut o = json!({"k":"fndef","path":self.path(d),"full":self.path_args(d, a)});
        let targs: Vec<_> = a.types().map(|t| self.ty(t)).collect();
        o["targs"] = json!(targs);
        o["local"] = json!(d.is_local());
        o["kind"] = json!(format!("{:?}", self.tcx.def_kind(d)));
        if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
            let parent = self.tcx.parent(d);
            o["ctor_of"] = json!(self.path(parent));
            if let Some(adt) = self.tcx.type_of(d).skip_binder().fn_sig(self.tcx).output().skip_binder().ty_adt_def() {
                if adt.is_enum() {
                    let vi = adt.variant_index_with_ctor_id(d);
                    o["ctor_variant"] = json!(vi.as_u32());
                } else { o["ctor_variant"] = json!(0); }
                o["ctor_adt"] = json!(self.path(adt.did()));
            }
            return o;
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o["trait"] = json!(self.path(tr));
            if let Some(s) = a.types().next() { o["self"] = json!(self.ty(s)); }
        }
        let env = self.env();
        let r = Instance::try_resolve(self.tcx, env, d, a);
        match r {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o["rpath"] = json!(self.path(rd));
                o["rlocal"] = json!(rd.is_local());
                o["rkind"] = json!(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    _ => "other",
                });
                if !rd.is_local() {
                    o["rspan"] = self.span(self.tcx.def_span(rd));
                    if rd != d {
                        let ra: Vec<_> = inst.args.types().map(|t| self.ty(t)).collect();
                        o["rtargs"] = json!(ra);
                    }
                }
                if let Some(k) = self.want(inst) { o["inst"] = json!(k); }
            }
            _ => {
                o["rkind"] = json!("unresolved");
                if !d.is_local() { o["rspan"] = self.span(self.tcx.def_span(d)); }
            }
        }
        o
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> Value {
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => json!(["d"]),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); json!(["f", f.as_u32(), ti]) }
                ProjectionElem::Index(l) => json!(["i", l.as_u32()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(n, v) => json!(["v", v.as_u32(), n.map(|x| x.to_string())]),
                _ => json!(["o"]),
            });
        }
        let _ = body;
        json!([p.local.as_u32(), proj])
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> Value {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Float(ft) => json!({"c":"float","bits":format!("{}", bits),"w":ft.bit_width()}),
                    ty::Bool => json!({"c":"bool","v":bits != 0}),
                    ty::Char => json!({"c":"char","v":bits as u64}),
                    ty::Int(_) => {
                        let sh = 128 - i.size().bits();
                        let v = ((bits << sh) as i128) >> sh;
                        json!({"c":"int","v":format!("{}", v)})
                    }
                    _ => json!({"c":"int","v":format!("{}", bits)}),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => json!({"c":"static","path":self.path(d)}),
                    Some(GlobalAlloc::Function { instance }) => {
                        let k = self.want(instance);
                        json!({"c":"fnptr","inst":k,"path":self.path(instance.def_id())})
                    }
                    Some(GlobalAlloc::Memory(al)) => {
                        // &[u8; N] / &str-like arrays, or reference to scalars
                        if let ty::Ref(_, inner, _) = t.kind() {
                            let inner = *inner;
                            if let ty::Array(el, n) = inner.kind() {
                                if *el == self.tcx.types.u8 {
                                    if let Some(n) = n.try_to_target_usize(self.tcx) {
                                        let st = off.bytes() as usize;
                                        let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                                        return json!({"c":"bytes","v":b.to_vec()});
                                    }
                                }
                            }
                            let v = self.read_alloc(al, off, inner);
                            return json!({"c":"refto","v":v});
                        }
                        json!({"c":"opaque"})
                    }
                    _ => json!({"c":"opaque"}),
                }
            }
        }
    }

    fn read_alloc(&mut self, al: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: rustc_abi::Size, t: Ty<'tcx>) -> Value {
        let env = self.env();
        let Ok(lay) = self.tcx.layout_of(env.as_query_input(t)) else { return json!({"c":"opaque"}) };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let r = rustc_middle::mir::interpret::alloc_range(off, lay.size);
                match al.inner().read_scalar(&self.tcx, r, false) {
                    Ok(s) => self.scalar(s, t),
                    _ => json!({"c":"opaque"}),
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Str) => {
                let ps = self.tcx.data_layout.pointer_size();
                let r = rustc_middle::mir::interpret::alloc_range(off, ps);
                let r2 = rustc_middle::mir::interpret::alloc_range(off + ps, ps);
                match (al.inner().read_scalar(&self.tcx, r, true), al.inner().read_scalar(&self.tcx, r2, false)) {
                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(n))) => {
                        let n = n.to_bits(ps) as usize;
                        let (prov, o) = p.into_raw_parts();
                        if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            let st = o.bytes() as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                            return json!({"c":"str","v":String::from_utf8_lossy(b)});
                        }
                        json!({"c":"opaque"})
                    }
                    _ => json!({"c":"opaque"}),
                }
            }
            ty::Array(el, n) => {
                let Some(n) = n.try_to_target_usize(self.tcx) else { return json!({"c":"opaque"}) };
                if n > 256 { return json!({"c":"opaque"}); }
                let Ok(el_l) = self.tcx.layout_of(env.as_query_input(*el)) else { return json!({"c":"opaque"}) };
                let v: Vec<Value> = (0..n).map(|i| self.read_alloc(al, off + el_l.size * i, *el)).collect();
                json!({"c":"array","v":v})
            }
            ty::Tuple(xs) => {
                let v: Vec<Value> = (0..xs.len()).map(|i| self.read_alloc(al, off + lay.fields.offset(i), xs[i])).collect();
                json!({"c":"tuple","v":v})
            }
            ty::Adt(d, a) if d.is_struct() => {
                let fs: Vec<_> = d.non_enum_variant().fields.iter().map(|f| self.tcx.normalize_erasing_regions(env, f.ty(self.tcx, a))).collect();
                let v: Vec<Value> = fs.iter().enumerate().map(|(i, ft)| self.read_alloc(al, off + lay.fields.offset(i), *ft)).collect();
                json!({"c":"struct","v":v})
            }
            _ => json!({"c":"opaque"}),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> Value {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut v = self.konst_inner(c, t);
        v["ty"] = json!(ti);
        v
    }
    fn konst_inner(&mut self, c: &ConstOperand<'tcx>, t: Ty<'tcx>) -> Value {
        if let ty::FnDef(..) = t.kind() { return json!({"c":"fn"}); }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return json!({"c":"promoted","n":p.as_u32()});
            }
        }
        let named = if let Const::Unevaluated(u, _) = c.const_ { Some(self.path(u.def)) } else { None };
        let env = self.env();
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(ConstValue::Scalar(s)) => self.scalar(s, t),
            Ok(ConstValue::ZeroSized) => json!({"c":"zst"}),
            Ok(ConstValue::Slice { alloc_id, meta }) => {
                match self.tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(al)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8) {
                                let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                if inner.is_str() {
                                    json!({"c":"str","v":String::from_utf8_lossy(b)})
                                } else { json!({"c":"bytes","v":b.to_vec()}) }
                            } else { json!({"c":"opaque"}) }
                        } else { json!({"c":"opaque"}) }
                    }
                    _ => json!({"c":"opaque"}),
                }
            }
            Ok(ConstValue::Indirect { alloc_id, offset }) => match self.tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(al)) => self.read_alloc(al, offset, t),
                _ => json!({"c":"opaque"}),
            },
            Err(_) => json!({"c":"opaque","s":with_no_trimmed_paths!(format!("{}", c.const_))}),
        };
        let mut v = v;
        if let Some(n) = named { v["named"] = json!(n); }
        v
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => { let p = self.place(p, body); json!({"o":"copy","p":p}) }
            Operand::Move(p) => { let p = self.place(p, body); json!({"o":"move","p":p}) }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => json!({"c":"bool","v":false}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o, body); json!({"r":"use","a":[o]}) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o, body); json!({"r":"repeat","a":[o],"n":n.try_to_target_usize(self.tcx)}) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p, body); json!({"r":"ref","mut":matches!(k, BorrowKind::Mut{..}),"p":p}) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p, body); json!({"r":"rawptr","p":p}) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p, body); json!({"r":"use","a":[{"o":"copy","p":p}],"mut":m.is_mut()}) }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, body);
                let ti = self.ty(*t);
                json!({"r":"cast","kind":format!("{:?}", k),"a":[o],"ty":ti})
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, body);
                let b = self.operand(&ab.1, body);
                json!({"r":"bin","op":format!("{:?}", op),"a":[a, b]})
            }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(a, body); json!({"r":"un","op":format!("{:?}", op),"a":[a]}) }
            Rvalue::Discriminant(p) => { let p = self.place(p, body); json!({"r":"discr","p":p}) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p, body); json!({"r":"use","a":[{"o":"copy","p":p}]}) }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<_> = ops.iter().map(|o| self.operand(o, body)).collect();
                let mut v = json!({"r":"agg","a":a});
                match &**k {
                    AggregateKind::Array(_) => v["k"] = json!("array"),
                    AggregateKind::Tuple => v["k"] = json!("tuple"),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        v["k"] = json!("adt");
                        v["adt"] = json!(self.path(*d));
                        v["variant"] = json!(vi.as_u32());
                        v["vname"] = json!(self.tcx.adt_def(*d).variant(*vi).name.to_string());
                    }
                    AggregateKind::Closure(d, a) => {
                        v["k"] = json!("closure");
                        let t = Ty::new_closure(self.tcx, *d, a);
                        v["ty"] = json!(self.ty(t));
                    }
                    _ => v["k"] = json!("other"),
                }
                v
            }
            _ => json!({"r":"other","s":format!("{:?}", r)}),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> Value {
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut dbg = vec![];
        for d in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(d.name.to_string());
                }
                let pj = self.place(&p, body);
                dbg.push(json!([d.name.to_string(), pj]));
            }
        }
        let locals: Vec<_> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            json!({"ty":t,"n":names.get(&l.as_u32())})
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, body);
                        let r = self.rvalue(&pr.1, body);
                        st.push(json!({"s":"asg","p":p,"rv":r,"sp":sp}));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(json!({"s":"setd","p":p,"v":variant_index.as_u32(),"sp":sp}));
                    }
                    StatementKind::StorageDead(l) => st.push(json!({"s":"dead","l":l.as_u32()})),
                    StatementKind::Intrinsic(_) => st.push(json!({"s":"intrinsic","sp":sp})),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => json!(b.as_u32()), _ => Value::Null };
            let mut tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!({"t":"goto","b":target.as_u32()}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let vs: Vec<_> = targets.iter().map(|(v, b)| json!([format!("{}", v), b.as_u32()])).collect();
                    json!({"t":"switch","d":d,"dty":dt,"v":vs,"else":targets.otherwise().as_u32()})
                }
                TerminatorKind::Return => json!({"t":"return"}),
                TerminatorKind::Unreachable => json!({"t":"unreachable"}),
                TerminatorKind::UnwindResume => json!({"t":"resume"}),
                TerminatorKind::UnwindTerminate(_) => json!({"t":"abort"}),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place, body);
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    json!({"t":"drop","p":p,"ty":pt,"b":target.as_u32(),"uw":uw(unwind)})
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<_> = args.iter().map(|x| self.operand(&x.node, body)).collect();
                    let at: Vec<_> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); self.ty(t) }).collect();
                    let d = self.place(destination, body);
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let fti = self.ty(ft);
                    let f = if let Operand::Constant(_) = func { Value::Null } else { self.operand(func, body) };
                    json!({"t":"call","f":fti,"fo":f,"a":a,"at":at,"d":d,"dt":dt,"b":target.map(|b| b.as_u32()),"uw":uw(unwind)})
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, body);
                    let (k, ops): (String, Vec<Value>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body), self.operand(index, body)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(a, body), self.operand(b, body)]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, body)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a, body)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a, body)]),
                        o => (format!("other:{:?}", std::mem::discriminant(o)), vec![]),
                    };
                    json!({"t":"assert","c":c,"exp":expected,"kind":k,"ops":ops,"b":target.as_u32(),"uw":uw(unwind)})
                }
                o => json!({"t":"other","s":format!("{:?}", o)}),
            };
            tv["sp"] = sp;
            blocks.push(json!({"st":st,"t":tv,"cleanup":bb.is_cleanup}));
        }
        json!({"args":body.arg_count,"locals":locals,"blocks":blocks,"dbg":dbg,"span":self.span(body.span)})
    }
}

struct UnsafeVis<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<Value>, owner: String }
impl<'tcx> Visitor<'tcx> for UnsafeVis<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // unsafe written inside a std macro (format_args!, thread_local!) is std's own
            let foreign = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(false);
            let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
            self.out.push(json!({"kind":"block","owner":self.owner,"foreign":foreign,"file":lo.file.name.prefer_local_unconditionally().to_string(),"line":lo.line}));
        }
        intravisit::walk_block(self, b);
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let root = LocalDefId { local_def_index: rustc_hir::def_id::CRATE_DEF_INDEX }.to_def_id();
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), keys: HashMap::new(), names: HashMap::new(), queue: VecDeque::new(), env_def: root };
        let mut top = Map::new();
        top.insert("crate".into(), json!(krate));

        let ev = tcx.effective_visibilities(());
        // roots: every local fn, with its own generics as opaque parameters
        let mut fns = Map::new();
        let mut seen: HashSet<DefId> = HashSet::new();
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_u32());
        for id in &keys {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            if !seen.insert(d) { continue; }
            cx.env_def = d;
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let key = cx.want(Instance { def: ty::InstanceKind::Item(d), args });
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            let ins: Vec<_> = sig.inputs().iter().map(|t| { let t = tcx.erase_and_anonymize_regions(*t); cx.ty(t) }).collect();
            let out = { let t = tcx.erase_and_anonymize_regions(sig.output()); cx.ty(t) };
            let parent = tcx.parent(d);
            let mut fo = json!({
                "root": key, "span": cx.span(tcx.def_span(d)), "in": ins, "out": out,
                "name": tcx.item_name(d).to_string(),
                "exported": ev.is_exported(*id), "reachable": ev.is_reachable(*id),
                "unsafe": sig.safety().is_unsafe(),
                "vis_public": tcx.visibility(d).is_public(),
                "generic": args.types().next().is_some(),
                "const": tcx.is_const_fn(d),
                "nlines": 0,
            });
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.erase_and_anonymize_regions(tcx.type_of(parent).skip_binder());
                fo["impl_self"] = json!(cx.ty(st));
                fo["derived"] = json!(tcx.is_automatically_derived(parent));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).skip_binder();
                    fo["impl_trait"] = json!(cx.path(tr.def_id));
                    fo["impl_trait_full"] = json!(with_no_trimmed_paths!(format!("{}", tr)));
                }
            } else if let DefKind::Trait = tcx.def_kind(parent) {
                fo["in_trait"] = json!(cx.path(parent));
            }
            fns.insert(cx.path(d), fo);
        }
        // instance closure
        let mut insts = Map::new();
        while let Some((inst, env_def)) = cx.queue.pop_front() {
            cx.env_def = env_def;
            let name = cx.keys[&(inst, env_def)].clone();
            let d = inst.def_id();
            let b = tcx.instance_mir(inst.def);
            let b: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env(), ty::EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b, Err(_) => continue };
            let mut v = cx.body(&b);
            v["path"] = json!(cx.path(d));
            v["local"] = json!(d.is_local());
            v["closure"] = json!(matches!(tcx.def_kind(d), DefKind::Closure));
            if d.is_local() {
                let prom = tcx.promoted_mir(d);
                let mut pv = vec![];
                for p in prom.iter() {
                    let p = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env(), ty::EarlyBinder::bind(tcx, p.clone()));
                    pv.push(match p { Ok(p) => cx.body(&p), Err(_) => Value::Null });
                }
                v["promoted"] = Value::Array(pv);
            } else {
                let prom = tcx.promoted_mir(d);
                let mut pv = vec![];
                for p in prom.iter() {
                    let p = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env(), ty::EarlyBinder::bind(tcx, p.clone()));
                    pv.push(match p { Ok(p) => cx.body(&p), Err(_) => Value::Null });
                }
                v["promoted"] = Value::Array(pv);
            }
            insts.insert(name, v);
        }
        // statics and consts
        let mut statics = Map::new();
        for id in &keys {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    cx.env_def = d;
                    let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).skip_binder());
                    let ti = cx.ty(t);
                    let b = tcx.mir_for_ctfe(d).clone();
                    let bv = cx.body(&b);
                    statics.insert(cx.path(d), json!({"ty":ti,"mut":mutability.is_mut(),"span":cx.span(tcx.def_span(d)),"body":bv,"exported":ev.is_exported(*id)}));
                }
                _ => {}
            }
        }
        // second drain: statics may have wanted closures
        while let Some((inst, env_def)) = cx.queue.pop_front() {
            cx.env_def = env_def;
            let name = cx.keys[&(inst, env_def)].clone();
            let b = tcx.instance_mir(inst.def).clone();
            if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, cx.env(), ty::EarlyBinder::bind(tcx, b)) {
                let mut v = cx.body(&b);
                v["path"] = json!(cx.path(inst.def_id()));
                v["local"] = json!(inst.def_id().is_local());
                v["closure"] = json!(matches!(tcx.def_kind(inst.def_id()), DefKind::Closure));
                v["promoted"] = json!([]);
                insts.insert(name, v);
            }
        }
        // ADTs, impls, unsafe
        let mut adts = Map::new();
        let mut uns: Vec<Value> = vec![];
        let items = tcx.hir_crate_items(());
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let mut impls: Vec<Value> = vec![];
        for id in items.definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    cx.env_def = d;
                    let a = tcx.adt_def(d);
                    let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).skip_binder());
                    let penv = tcx.param_env(d);
                    let (infcx, penv2) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::post_analysis(tcx, d));
                    let _ = penv;
                    let mut auto = Map::new();
                    if let Some(s) = send { auto.insert("Send".into(), json!(infcx.type_implements_trait(s, [t], penv2).must_apply_modulo_regions())); }
                    if let Some(s) = sync { auto.insert("Sync".into(), json!(infcx.type_implements_trait(s, [t], penv2).must_apply_modulo_regions())); }
                    let mut vs = vec![];
                    for v in a.variants() {
                        let fs: Vec<_> = v.fields.iter().map(|f| {
                            let ft = tcx.erase_and_anonymize_regions(f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d)).skip_norm_wip());
                            let ti = cx.ty(ft);
                            json!({"n":f.name.to_string(),"ty":ti,"pub":f.vis.is_public(),"vis":format!("{:?}", f.vis)})
                        }).collect();
                        vs.push(json!({"n":v.name.to_string(),"fields":fs}));
                    }
                    adts.insert(cx.path(d), json!({"kind":format!("{:?}", tcx.def_kind(d)),"variants":vs,"auto":auto,
                        "exported":ev.is_exported(id),"reachable":ev.is_reachable(id),"span":cx.span(tcx.def_span(d)),"ty":cx.ty(t)}));
                }
                DefKind::Impl { of_trait } => {
                    cx.env_def = d;
                    let st = tcx.erase_and_anonymize_regions(tcx.type_of(d).skip_binder());
                    let sti = cx.ty(st);
                    let mut o = json!({"self":sti,"span":cx.span(tcx.def_span(d)),"derived":tcx.is_automatically_derived(d)});
                    if of_trait {
                        let h = tcx.impl_trait_header(d);
                        let tr = h.trait_ref.skip_binder();
                        o["trait"] = json!(cx.path(tr.def_id));
                        o["trait_full"] = json!(with_no_trimmed_paths!(format!("{}", tr)));
                        o["unsafe"] = json!(h.safety.is_unsafe());
                        o["negative"] = json!(format!("{:?}", h.polarity));
                    }
                    let its: Vec<_> = tcx.associated_item_def_ids(d).iter().map(|x| json!(cx.path(*x))).collect();
                    o["items"] = json!(its);
                    impls.push(o);
                }
                DefKind::ForeignMod => uns.push(json!({"kind":"extern","owner":cx.path(d),"span":cx.span(tcx.def_span(d))})),
                _ => {}
            }
        }
        for id in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(id);
            let mut v = UnsafeVis { tcx, out: vec![], owner: cx.path(id.to_def_id()) };
            v.visit_expr(body.value);
            uns.extend(v.out);
        }
        top.insert("fns".into(), Value::Object(fns));
        top.insert("insts".into(), Value::Object(insts));
        top.insert("statics".into(), Value::Object(statics));
        top.insert("adts".into(), Value::Object(adts));
        top.insert("impls".into(), Value::Array(impls));
        top.insert("unsafe".into(), Value::Array(uns));
        let tys = std::mem::take(&mut cx.types);
        top.insert("types".into(), Value::Array(tys));
        let is_bin = tcx.entry_fn(()).is_some();
        let f = format!("{}/{}{}.json", dir, krate, if is_bin { ".bin" } else { ".lib" });
        std::fs::write(&f, serde_json::to_string(&Value::Object(top)).unwrap()).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}
