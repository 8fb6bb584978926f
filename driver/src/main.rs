//! Dumps the monomorphic MIR of one workspace crate (and of every generic or
//! inlinable foreign function it reaches) as JSON, with resolved callees,
//! evaluated constants and type descriptions. No code of the crate is run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::*;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_hir::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let text = with_no_trimmed_paths!(with_no_visible_paths!(dump(tcx)));
        let name = format!("{}/{}.json", self.out, tcx.crate_name(rustc_span::def_id::LOCAL_CRATE));
        std::fs::write(&name, text).expect("write dump");
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashMap<Instance<'tcx>, String>,
    keys: HashMap<String, usize>,
    opaque: Vec<String>,
    bodies: Vec<String>,
    cur: Option<Instance<'tcx>>,
}

fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) { return n(*i as i128); }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        n(i as i128)
    }

    fn inst(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.seen.get(&i) { return k.clone(); }
        let mut base = match i.def {
            InstanceKind::Item(_) => i.to_string(),
            d => format!("{:?}", d),
        };
        if !matches!(i.def, InstanceKind::Item(_)) { base = format!("{} @ {}", base, i); }
        let c = self.keys.entry(base.clone()).or_insert(0);
        let key = if *c == 0 { base.clone() } else { format!("{}#{}", base, c) };
        *c += 1;
        self.seen.insert(i, key.clone());
        self.queue.push_back(i);
        key
    }

    fn wants_body(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) { return false; }
                if tcx.intrinsic(d).is_some() { return false; }
                if d.is_local() { return tcx.is_mir_available(d); }
                if !tcx.is_mir_available(d) { return false; }
                let p = tcx.def_path_str(d);
                if self.opaque.iter().any(|o| p.contains(o.as_str())) { return false; }
                self.bodies.iter().any(|o| p.starts_with(o.as_str()))
            }
            InstanceKind::Shim(_) => {
                let d = format!("{:?}", i.def);
                d.contains("ClosureOnce")
            }
            _ => false,
        }
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        Instance::try_resolve(self.tcx, self.env, d, args).ok().flatten()
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => J::Arr(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.mono(t);
                    J::Arr(vec![s("f"), n(f.as_u32()), self.ty(t)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![s("ci"), n(offset), n(min_length), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("v"), n(v.as_u32())]),
                other => J::Arr(vec![s("?"), s(format!("{:?}", other))]),
            });
        }
        J::Arr(vec![n(p.local.as_u32()), J::Arr(proj)])
    }

    fn mono<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>>>(&self, v: T) -> T {
        let inst = self.cur.expect("current instance");
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, v))
    }

    fn fn_value(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                match self.resolve(*d, args) {
                    Some(i) => s(self.inst(i)),
                    None => J::Null,
                }
            }
            ty::Closure(d, args) => {
                let i = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                s(self.inst(i))
            }
            _ => J::Null,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let k = self.mono(c.const_);
        let t = k.ty();
        if let ty::FnDef(..) = t.kind() {
            return J::Obj(vec![("k", s("fn")), ("t", self.ty(t))]);
        }
        match k.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::Obj(vec![("k", s("unk")), ("t", self.ty(t)), ("why", s("eval"))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        let unk = |why: &str, tj: J| J::Obj(vec![("k", s("unk")), ("t", tj), ("why", s(why))]);
        if depth > 6 { return unk("depth", tj); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = v.try_to_scalar_int().or_else(|| {
                    let ConstValue::Indirect { alloc_id, offset } = v else { return None };
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                    let size = rustc_abi::Size::from_bytes(self.size_of(t)?);
                    let sc = a.inner().read_scalar(&tcx, AllocRange { start: offset, size }, false).ok()?;
                    match sc {
                        Scalar::Int(i) => Some(i),
                        _ => None,
                    }
                });
                if let Some(sc) = sc {
                    let size = sc.size();
                    let x: i128 = if matches!(t.kind(), ty::Int(_)) { sc.to_int(size) } else { sc.to_uint(size) as i128 };
                    return J::Obj(vec![("k", s("int")), ("t", tj), ("v", n(x))]);
                }
                unk("scalar", tj)
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::Obj(vec![("k", s("str")), ("t", tj), ("v", s(String::from_utf8_lossy(b).into_owned()))]);
                    }
                    return unk("str", tj);
                }
                if let ty::Slice(_) = inner.kind() {
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        if let ty::Slice(et) = inner.kind() {
                            if let Some(items) = self.read_array(alloc_id, 0, *et, meta, depth) {
                                return J::Obj(vec![("k", s("ref")), ("t", tj), ("v", J::Obj(vec![("k", s("arr")), ("v", J::Arr(items))]))]);
                            }
                        }
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let Some(j) = self.read_at(alloc_id, offset.bytes(), t, depth) { return j; }
                    }
                    return unk("slice", tj);
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                        return J::Obj(vec![("k", s("static")), ("t", tj), ("v", s(tcx.def_path_str(d)))]);
                    }
                    let j = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1);
                    return J::Obj(vec![("k", s("ref")), ("t", tj), ("v", j)]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(j) = self.read_at(alloc_id, offset.bytes(), t, depth) { return j; }
                }
                unk("ref", tj)
            }
            ty::Array(et, len) => {
                let len = len.try_to_target_usize(tcx).unwrap_or(0);
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(items) = self.read_array(alloc_id, offset.bytes(), *et, len, depth) {
                        return J::Obj(vec![("k", s("arr")), ("t", tj), ("v", J::Arr(items))]);
                    }
                }
                if len == 0 { return J::Obj(vec![("k", s("arr")), ("t", tj), ("v", J::Arr(vec![]))]); }
                unk("array", tj)
            }
            ty::Adt(..) | ty::Tuple(_) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return J::Obj(vec![
                        ("k", s("adt")),
                        ("t", tj),
                        ("var", n(d.variant.map_or(0, |v| v.as_u32()))),
                        ("v", J::Arr(fs)),
                    ]);
                }
                unk("adt", tj)
            }
            ty::FnDef(..) => J::Obj(vec![("k", s("fn")), ("t", tj)]),
            ty::FnPtr(..) => {
                let sc = match v {
                    ConstValue::Scalar(x) => Some(x),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => {
                            let size = tcx.data_layout.pointer_size();
                            a.inner().read_scalar(&tcx, AllocRange { start: offset, size }, true).ok()
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let id = p.prov_and_relative_offset().0.alloc_id();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(id) {
                        if let ty::InstanceKind::Item(_) = instance.def {
                            let ft = instance.ty(tcx, self.env);
                            let ftj = self.ty(ft);
                            return J::Obj(vec![("k", s("fn")), ("t", ftj)]);
                        }
                    }
                }
                unk("kind", tj)
            }
            ty::Closure(..) => J::Obj(vec![("k", s("closure")), ("t", tj)]),
            _ => unk("kind", tj),
        }
    }

    fn size_of(&self, t: Ty<'tcx>) -> Option<u64> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| l.size.bytes())
    }

    fn read_array(&mut self, id: AllocId, off: u64, et: Ty<'tcx>, len: u64, depth: usize) -> Option<Vec<J>> {
        if len > 4096 { return None; }
        let sz = self.size_of(et)?;
        let mut v = Vec::new();
        for i in 0..len { v.push(self.read_at(id, off + i * sz, et, depth + 1)?); }
        Some(v)
    }

    /// reads a value of type `t` at `off` of a constant allocation
    fn read_at(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let size = rustc_abi::Size::from_bytes;
        if let ty::Ref(_, inner, _) = t.kind() {
            let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return None };
            let a = a.inner();
            let ptr = tcx.data_layout.pointer_size();
            let sc = a.read_scalar(&tcx, AllocRange { start: size(off), size: ptr }, true).ok()?;
            let Scalar::Ptr(p, _) = sc else { return None };
            let (prov, poff) = p.prov_and_relative_offset();
            let tgt = prov.alloc_id();
            if inner.is_str() {
                let ln = a.read_scalar(&tcx, AllocRange { start: size(off) + ptr, size: ptr }, false).ok()?;
                let ln = ln.to_target_usize(&tcx).discard_err()?;
                let GlobalAlloc::Memory(b) = tcx.global_alloc(tgt) else { return None };
                let bytes = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    poff.bytes() as usize..(poff.bytes() + ln) as usize,
                );
                let tj = self.ty(t);
                return Some(J::Obj(vec![("k", s("str")), ("t", tj), ("v", s(String::from_utf8_lossy(bytes).into_owned()))]));
            }
            if let ty::Slice(et) = inner.kind() {
                let ln = a.read_scalar(&tcx, AllocRange { start: size(off) + ptr, size: ptr }, false).ok()?;
                let ln = ln.to_target_usize(&tcx).discard_err()?;
                let items = self.read_array(tgt, poff.bytes(), *et, ln, depth + 1)?;
                let tj = self.ty(t);
                return Some(J::Obj(vec![("k", s("ref")), ("t", tj), ("v", J::Obj(vec![("k", s("arr")), ("v", J::Arr(items))]))]));
            }
            if depth > 6 { return None; }
            let j = self.cval(ConstValue::Indirect { alloc_id: tgt, offset: poff }, *inner, depth + 1);
            let tj = self.ty(t);
            return Some(J::Obj(vec![("k", s("ref")), ("t", tj), ("v", j)]));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return None };
            let sz = self.size_of(t)?;
            let sc = a.inner().read_scalar(&tcx, AllocRange { start: size(off), size: size(sz) }, false).ok()?;
            return Some(self.cval(ConstValue::Scalar(sc), t, depth + 1));
        }
        Some(self.cval(ConstValue::Indirect { alloc_id: id, offset: size(off) }, t, depth + 1))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![s("k"), self.constant(c)]),
            Operand::RuntimeChecks(_) => J::Arr(vec![s("k"), J::Obj(vec![("k", s("int")), ("v", n(0))])]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let c = self.mono(*c);
                let k = c.try_to_target_usize(self.tcx);
                J::Arr(vec![s("repeat"), self.operand(o), k.map_or(J::Null, |x| n(x))])
            }
            Rvalue::Ref(_, k, p) => J::Arr(vec![s("ref"), self.place(p), J::Bool(matches!(k, BorrowKind::Mut { .. }))]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), self.place(p), J::Bool(true)]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(self.tcx.def_path_str(*d))]),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(*t);
                J::Arr(vec![s("cast"), s(format!("{:?}", k)), self.operand(o), self.ty(t)])
            }
            Rvalue::BinaryOp(b, x) => {
                J::Arr(vec![s("bin"), s(format!("{:?}", b)), self.operand(&x.0), self.operand(&x.1)])
            }
            Rvalue::UnaryOp(u, o) => J::Arr(vec![s("un"), s(format!("{:?}", u)), self.operand(o)]),
            Rvalue::Discriminant(p) => J::Arr(vec![s("disc"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let mut extra = Vec::new();
                let kind = match &**k {
                    AggregateKind::Array(_) => "array",
                    AggregateKind::Tuple => "tuple",
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *args).skip_norm_wip();
                        let t = self.mono(t);
                        extra.push(self.ty(t));
                        extra.push(n(v.as_u32()));
                        extra.push(f.map_or(J::Null, |f| n(f.as_u32())));
                        "adt"
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, self.mono(*args));
                        extra.push(self.ty(t));
                        "closure"
                    }
                    AggregateKind::RawPtr(..) => "rawptr",
                    _ => "other",
                };
                J::Arr(vec![s("agg"), s(kind), J::Arr(ops), J::Arr(extra)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])]),
            other => J::Arr(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn callee(&mut self, o: &Operand<'tcx>) -> J {
        let Operand::Constant(c) = o else {
            return J::Obj(vec![("k", s("ptr")), ("op", self.operand(o))]);
        };
        let t = self.mono(c.const_.ty());
        let ty::FnDef(d, args) = t.kind() else {
            return J::Obj(vec![("k", s("ptr")), ("op", self.operand(o))]);
        };
        let (d, args) = (*d, args.skip_binder());
        let path = self.tcx.def_path_str(d);
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        let mut out = vec![("k", s("def")), ("path", s(path)), ("targs", J::Arr(targs))];
        if let Some(i) = self.resolve(d, args) {
            let virt = matches!(i.def, InstanceKind::Virtual(..));
            let key = self.inst(i);
            out.push(("inst", s(key)));
            if virt { out.push(("virtual", J::Bool(true))); }
        }
        J::Obj(out)
    }

    fn body(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        self.cur = Some(i);
        let body = tcx.instance_mir(i.def);
        let mut locals = Vec::new();
        for l in body.local_decls.iter() {
            let t = self.mono(l.ty);
            locals.push(self.ty(t));
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::Arr(vec![n(p.local.as_u32()), s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(J::Arr(vec![s("="), p, r, s(span_str(tcx, x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![s("setd"), self.place(place), n(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), n(l.as_u32())])),
                    StatementKind::Intrinsic(b) => st.push(J::Arr(vec![s("intr"), s(format!("{:?}", b))])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = s(span_str(tcx, term.source_info.span));
            let b = |x: BasicBlock| n(x.as_u32());
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), b(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), b(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), b(*real_target)]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::Arr(vec![s("drop"), self.place(place), b(*target)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.mono(discr.ty(&body.local_decls, tcx));
                    let arms: Vec<J> = targets.iter().map(|(v, t)| J::Arr(vec![n(v as i128), b(t)])).collect();
                    J::Arr(vec![s("switch"), self.operand(discr), J::Arr(arms), b(targets.otherwise()), line, self.ty(t)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let c = self.callee(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| {
                        let t = self.mono(x.node.ty(&body.local_decls, tcx));
                        self.ty(t)
                    }).collect();
                    let rt = self.mono(destination.ty(&body.local_decls, tcx).ty);
                    let rt = self.ty(rt);
                    J::Arr(vec![
                        s("call"), c, J::Arr(a), self.place(destination),
                        target.map_or(J::Null, b), s(span_str(tcx, *fn_span)), J::Arr(at), rt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    J::Arr(vec![s("assert"), self.operand(cond), J::Bool(*expected), b(*target), line, s(m)])
                }
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("resume")]),
                other => J::Arr(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", t), ("cleanup", J::Bool(bb.is_cleanup))]));
        }
        J::Obj(vec![
            ("args", n(body.arg_count as i128)),
            ("spread", body.spread_arg.map_or(J::Null, |l| n(l.as_u32()))),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn ty_desc(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let text = t.to_string();
        let mut o = vec![("s", s(text))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(tcx.def_path_str(def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                o.push(("enum", J::Bool(def.is_enum())));
                o.push(("union", J::Bool(def.is_union())));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        fs.push(J::Arr(vec![s(f.name.as_str()), self.ty(ft)]));
                    }
                    vs.push(J::Obj(vec![("n", s(v.name.as_str())), ("d", n(disc)), ("f", J::Arr(fs))]));
                }
                o.push(("variants", J::Arr(vs)));
                o.push(("drop", J::Bool(t.needs_drop(tcx, self.env))));
            }
            ty::Ref(_, i, m) => {
                o.push(("k", s("ref")));
                o.push(("to", self.ty(*i)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(i, _) => {
                o.push(("k", s("ptr")));
                o.push(("to", self.ty(*i)));
            }
            ty::Slice(i) => {
                o.push(("k", s("slice")));
                o.push(("to", self.ty(*i)));
            }
            ty::Array(i, l) => {
                o.push(("k", s("array")));
                o.push(("to", self.ty(*i)));
                o.push(("len", l.try_to_target_usize(tcx).map_or(J::Null, |x| n(x))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("f", J::Arr(v)));
            }
            ty::Closure(_, args) => {
                o.push(("k", s("closure")));
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("f", J::Arr(v)));
                o.push(("inst", self.fn_value(t)));
                o.push(("ck", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                if let rustc_hir::def::DefKind::Ctor(..) = tcx.def_kind(*d) {
                    let sig = tcx.fn_sig(*d).instantiate(tcx, args.skip_binder()).skip_binder();
                    let out = tcx.erase_and_anonymize_regions(sig.output());
                    let v = match out.kind() {
                        ty::Adt(a, _) if a.is_enum() => a.variant_index_with_ctor_id(*d).as_u32(),
                        _ => 0,
                    };
                    o.push(("ctor", n(v)));
                    let out = self.ty(out);
                    o.push(("rt", out));
                }
                o.push(("path", s(tcx.def_path_str(*d))));
                o.push(("inst", self.fn_value(t)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        J::Obj(o)
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let list = |v: &str| -> Vec<String> {
        std::env::var(v).unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    };
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        ty_list: Vec::new(),
        queue: VecDeque::new(),
        seen: HashMap::new(),
        keys: HashMap::new(),
        opaque: list("MIRDUMP_OPAQUE"),
        bodies: list("MIRDUMP_BODIES"),
        cur: None,
    };
    // roots: every non-generic function of the crate (mview_impl and whatever is
    // there besides it; unreachable ones are reported separately)
    let mut roots = Vec::new();
    let mut statics = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                if tcx.is_mir_available(d) {
                    let i = Instance::mono(tcx, d);
                    let k = cx.inst(i);
                    let vis = tcx.visibility(d).is_public();
                    roots.push(J::Obj(vec![("inst", s(k)), ("pub", J::Bool(vis)), ("at", s(span_str(tcx, tcx.def_span(d))))]));
                }
            }
            DefKind::Static { mutability, .. } => {
                let ty = tcx.type_of(d).skip_binder();
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                statics.push(J::Obj(vec![
                    ("path", s(tcx.def_path_str(d))),
                    ("ty", s(ty.to_string())),
                    ("mut", J::Bool(mutability.is_mut())),
                    ("freeze", J::Bool(ty.is_freeze(tcx, env))),
                    ("local", J::Bool(tcx.is_thread_local_static(d))),
                    ("at", s(span_str(tcx, tcx.def_span(d)))),
                ]));
            }
            _ => {}
        }
    }
    // impls, for finding e.g. the `Parse` implementation of a type
    let mut fns = Vec::new();
    while let Some(i) = cx.queue.pop_front() {
        let key = cx.seen[&i].clone();
        let d = i.def_id();
        let mut o = vec![
            ("path", s(tcx.def_path_str(d))),
            ("local", J::Bool(d.is_local())),
            ("kind", s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string())),
            ("at", s(if d.is_local() { span_str(tcx, tcx.def_span(d)) } else { String::new() })),
        ];
        let targs: Vec<J> = i.args.types().map(|t| cx.ty(t)).collect();
        o.push(("targs", J::Arr(targs)));
        if tcx.is_closure_like(d) {
            let p = tcx.typeck_root_def_id(d);
            o.push(("parent", s(tcx.def_path_str(p))));
        }
        if let Some(ai) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(ai).skip_binder();
            o.push(("trait", s(tcx.def_path_str(tr.def_id))));
            o.push(("self", s(tr.self_ty().to_string())));
        }
        if cx.wants_body(i) {
            let b = cx.body(i);
            o.push(("body", b));
        }
        fns.push((key, J::Obj(o)));
        if fns.len() > 60000 { break; }
    }
    // types (describing a type may add further types; closures may add bodies)
    let mut tys = Vec::new();
    let mut k = 0;
    loop {
        while k < cx.ty_list.len() {
            let t = cx.ty_list[k];
            let d = cx.ty_desc(t);
            tys.push(d);
            k += 1;
        }
        let Some(i) = cx.queue.pop_front() else { break };
        let key = cx.seen[&i].clone();
        let d = i.def_id();
        let mut o = vec![
            ("path", s(tcx.def_path_str(d))),
            ("local", J::Bool(d.is_local())),
            ("kind", s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string())),
            ("at", s(if d.is_local() { span_str(tcx, tcx.def_span(d)) } else { String::new() })),
        ];
        if tcx.is_closure_like(d) {
            let p = tcx.typeck_root_def_id(d);
            o.push(("parent", s(tcx.def_path_str(p))));
        }
        if cx.wants_body(i) {
            let b = cx.body(i);
            o.push(("body", b));
        }
        fns.push((key, J::Obj(o)));
    }
    let out = J::Obj(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
        ("roots", J::Arr(roots)),
        ("statics", J::Arr(statics)),
        ("fns", J::Map(fns)),
        ("types", J::Arr(tys)),
    ]);
    let mut text = String::new();
    out.write(&mut text);
    text
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: args[1] is the rustc to run
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !out.is_empty() && want.split(',').any(|w| w == name) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
