// Facts extractor: dumps the type-checked, drop-elaborated MIR of the crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; analyses only the crate named in CANDY_FACTS_CRATE (lib target).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;


use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, Option<J>>,
    env: TypingEnv<'tcx>,
    body_def: DefId,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }
    fn arg(&mut self, a: ty::GenericArg<'tcx>) -> Option<J> {
        match a.kind() {
            GenericArgKind::Type(t) => Some(n(self.ty(t))),
            GenericArgKind::Const(c) => Some(J::O(vec![("const", s(format!("{}", c)))])),
            GenericArgKind::Lifetime(_) => None,
            #[allow(unreachable_patterns)]
            _ => None,
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|x| self.arg(x)).collect())
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, None);
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let idargs = ty::GenericArgs::identity_for_item(tcx, d);
        let local = d.is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                J::I(def.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::N
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if local {
                    let fty = f.ty(tcx, idargs);
                    n(self.ty(fty.skip_norm_wip()))
                } else {
                    J::N
                };
                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", t)]));
            }
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", discr), ("fields", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let repr = format!("{:?}", def.repr());
        let hasdrop = match tcx.adt_destructor(d) {
            Some(x) => s(self.path(x.did)),
            None => J::N,
        };
        let j = J::O(vec![
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("repr_c", J::B(def.repr().c())),
            ("packed", J::B(def.repr().packed())),
            ("repr", s(if local { repr } else { String::new() })),
            ("variants", J::A(vs)),
            ("drop", hasdrop),
        ]);
        self.adts.insert(d, Some(j));
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tmap.insert(t, id);
        self.types.push(J::N);
        let str_ = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(def.did()))));
                self.adt(def.did());
                let a = self.args(args);
                o.push(("args", a));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
                o.push(("len", s(format!("{}", len))));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.as_str())));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(*d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("upvars", J::A(ups)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(*d))));
                let a = self.args(args.no_bound_vars().unwrap_or(ty::List::empty()));
                o.push(("args", a));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        let copy = self.tcx.type_is_copy_modulo_regions(self.env, t);
        let nd = t.needs_drop(self.tcx, self.env);
        o.push(("copy", J::B(copy)));
        o.push(("nd", J::B(nd)));
        o.push(("s", s(str_)));
        self.types[id] = J::O(o);
        id
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            def.variant(vi).fields[f].name.as_str().to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let ti = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), s(name), n(ti)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, vi) => J::A(vec![
                    s("d"),
                    n(vi.as_usize()),
                    s(nm.map(|x| x.as_str().to_string()).unwrap_or_default()),
                ]),
                _ => J::A(vec![s("cast")]),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = (off + len) as usize;
                if end > a.len() || len > 4096 {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end).to_vec())
            }
            _ => None,
        }
    }
    /// the elements of an array of n byte-string references stored at an allocation
    fn alloc_strs(&self, id: mir::interpret::AllocId, off: u64, n: u64) -> Option<J> {
        let mir::interpret::GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(id)? else {
            return None;
        };
        let a = a.inner();
        let mut v = vec![];
        for i in 0..n {
            let at = off + i * 16;
            let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(at))?;
            let w = a.inspect_with_uninit_and_ptr_outside_interpreter(at as usize..at as usize + 16);
            let o = u64::from_le_bytes(w[..8].try_into().ok()?);
            let l = u64::from_le_bytes(w[8..].try_into().ok()?);
            let b = self.alloc_bytes(prov.alloc_id(), o, l)?;
            v.push(J::A(b.into_iter().map(|x| J::I(x as i128)).collect()));
        }
        Some(J::A(v))
    }
    fn strs_of(&self, t: Ty<'tcx>) -> Option<u64> {
        if let ty::Array(e, n) = t.kind() {
            if let ty::Ref(_, i, _) = e.kind() {
                let bytes = match i.kind() {
                    ty::Slice(b) => *b == self.tcx.types.u8,
                    _ => i.is_str(),
                };
                if bytes {
                    return n.try_to_target_usize(self.tcx).filter(|n| *n <= 64);
                }
            }
        }
        None
    }
    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match (&cv, t.kind()) {
            (ConstValue::Indirect { alloc_id, offset }, _) => {
                if let Some(n) = self.strs_of(t) {
                    if let Some(j) = self.alloc_strs(*alloc_id, offset.bytes(), n) {
                        o.push(("strs", j));
                    }
                }
            }
            (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                if let Some(n) = self.strs_of(*inner) {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(j) = self.alloc_strs(prov.alloc_id(), off.bytes(), n) {
                        o.push(("strs", j));
                    }
                }
            }
            _ => {}
        }
        match cv {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let v: i128 = if t.is_signed() { i.to_int(size) } else { i.to_bits(size) as i128 };
                o.push(("v", J::I(v)));
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(*inner)) {
                        if l.is_sized() {
                            if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), l.size.bytes()) {
                                o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                            }
                        }
                    }
                }
                if let Some(mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    o.push(("static", s(self.path(d))));
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Ok(st) = String::from_utf8(b.clone()) {
                                o.push(("str", s(st)));
                            }
                        }
                    }
                    o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), l.size.bytes()) {
                        o.push(("bytes", J::A(b.into_iter().map(|x| J::I(x as i128)).collect())));
                    }
                }
                // a slice reference stored in memory (named consts of type &[u8])
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_slice() || inner.is_str() {
                        if let Some(sl) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.retain(|x| x.0 != "bytes");
                            o.push(("bytes", J::A(sl.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
            }
            ConstValue::ZeroSized => {
                o.push(("zst", J::B(true)));
            }
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(ti))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or(ty::List::empty());
            o.push(("fn", s(self.path(*d))));
            o.push(("fnlocal", J::B(d.is_local())));
            let a = self.args(args);
            o.push(("fnargs", a));
            if matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, *d, args) {
                    let rd = inst.def_id();
                    o.push(("res", s(self.path(rd))));
                    o.push(("reslocal", J::B(rd.is_local())));
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        _ => "shim",
                    };
                    o.push(("reskind", s(kind)));
                    let ra = self.args(inst.args);
                    o.push(("resargs", ra));
                }
            }
            return J::O(vec![("k", J::O(o))]);
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            o.push(("def", s(self.path(uv.def))));
            if let Some(p) = uv.promoted {
                o.push(("promoted", n(p.as_usize())));
            }
            let a = self.args(uv.args);
            o.push(("cargs", a));
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        let isgeneric = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        if !isgeneric {
            if let Ok(cv) = c.const_.eval(tcx, self.env, c.span) {
                self.constval(cv, t, &mut o);
            }
        }
        J::O(vec![("k", J::O(o))])
    }
    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(b, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(b, *p))]),
            Operand::Constant(c) => self.konst(c),
            _ => J::O(vec![("rt", s("runtimecheck"))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(b, op)]),
            Rvalue::Repeat(op, c) => J::A(vec![s("repeat"), self.operand(b, op), s(format!("{}", c))]),
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(b, *p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(b, *p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, op, t) => {
                let ti = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, op), n(ti)])
            }
            Rvalue::BinaryOp(o, ab) => J::A(vec![
                s("bin"),
                s(format!("{:?}", o)),
                self.operand(b, &ab.0),
                self.operand(b, &ab.1),
            ]),
            Rvalue::UnaryOp(o, a) => J::A(vec![s("un"), s(format!("{:?}", o)), self.operand(b, a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, *p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(b, x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, args);
                        let ti = self.ty(t);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(vi.as_usize()),
                            s(def.variant(*vi).name.as_str()),
                            J::A(def.variant(*vi).fields.iter().map(|f| s(f.name.as_str())).collect()),
                            n(ti),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.as_str().to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let ti = self.ty(d.ty);
            locals.push(J::A(vec![
                n(ti),
                names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::N),
            ]));
        }
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in data.statements.iter() {
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(b, *p);
                        let rj = self.rvalue(b, r);
                        sts.push(J::A(vec![s("="), pj, rj, self.span(st.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(b, **place);
                        sts.push(J::A(vec![
                            s("setdiscr"),
                            pj,
                            n(variant_index.as_usize()),
                            self.span(st.source_info.span),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        sts.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        sts.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let exp = if term.source_info.span.from_expansion() { 1 } else { 0 };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), n(bb.as_usize())]));
                    }
                    J::A(vec![
                        s("switch"),
                        self.operand(b, discr),
                        J::A(v),
                        n(targets.otherwise().as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, tcx).ty;
                    let ti = self.ty(pt);
                    J::A(vec![s("drop"), self.place(b, *place), n(target.as_usize()), n(ti), sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(b, func);
                    let av: Vec<J> = args.iter().map(|a| self.operand(b, &a.node)).collect();
                    let d = self.place(b, *destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(av),
                        d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::N),
                        sp,
                        J::I(exp),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let kind: String = k.chars().take(40).collect();
                    J::A(vec![
                        s("assert"),
                        self.operand(b, cond),
                        J::B(*expected),
                        s(kind),
                        n(target.as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("c", J::B(data.is_cleanup)), ("s", J::A(sts)), ("t", t)]));
        }
        J::O(vec![("argc", n(b.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks))])
    }

    fn function(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        self.body_def = did;
        self.env = TypingEnv::post_analysis(tcx, did);
        let kind = tcx.def_kind(did);
        let ks = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            _ => return None,
        };
        let steal = tcx.mir_drops_elaborated_and_const_checked(d);
        if steal.is_stolen() {
            eprintln!("candy-facts: stolen body {}", self.path(did));
            return None;
        }
        let body = steal.borrow().clone();
        let bj = self.body(&body);
        let mut proms = vec![];
        let pm = tcx.promoted_mir(did).clone();
        for p in pm.iter() {
            proms.push(self.body(p));
        }
        let mut parent = J::N;
        let mut upnames = vec![];
        if kind == DefKind::Closure {
            parent = s(self.path(tcx.parent(did)));
            for c in tcx.closure_captures(d) {
                upnames.push(s(c.to_string(tcx)));
            }
        }
        let mut assoc = J::N;
        let mut trait_ = J::N;
        if kind == DefKind::AssocFn {
            let par = tcx.parent(did);
            if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                assoc = n(self.ty(st));
                if matches!(tcx.def_kind(par), DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                    trait_ = s(self.path(tr.def_id));
                }
            }
        }
        let gens = tcx.generics_of(did);
        let mut gnames = vec![];
        let mut g = Some(gens);
        let mut stack = vec![];
        while let Some(x) = g {
            stack.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in stack.iter().rev() {
            for p in x.own_params.iter() {
                gnames.push(s(p.name.as_str()));
            }
        }
        let vis = format!("{:?}", tcx.visibility(did));
        let eff_pub = tcx.effective_visibilities(()).is_reachable(d);
        Some(J::O(vec![
            ("path", s(self.path(did))),
            ("kind", s(ks)),
            ("name", tcx.opt_item_name(did).map(|x| s(x.as_str())).unwrap_or(J::N)),
            ("vis", s(vis)),
            ("pub", J::B(eff_pub)),
            ("parent", parent),
            ("upnames", J::A(upnames)),
            ("self_ty", assoc),
            ("trait", trait_),
            ("generics", J::A(gnames)),
            ("span", self.span(tcx.def_span(did))),
            ("body", bj),
            ("promoted", J::A(proms)),
        ]))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("CANDY_FACTS_CRATE").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let is_test = tcx.sess.opts.test;
        if name.as_str() != want || is_test {
            return Compilation::Continue;
        }
        let out = std::env::var("CANDY_FACTS_OUT").expect("CANDY_FACTS_OUT");
        let mut cx = Cx {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            adts: HashMap::new(),
            env: TypingEnv::fully_monomorphized(),
            body_def: rustc_hir::def_id::CRATE_DEF_ID.to_def_id(),
        };
        let mut fns = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        let mut consts = vec![];
        for d in owners.iter() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if let Some(f) = cx.function(*d) {
                        fns.push(f);
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let gens = tcx.generics_of(did);
                    let has_ty = gens.requires_monomorphization(tcx);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    cx.env = TypingEnv::post_analysis(tcx, did);
                    let ti = cx.ty(t);
                    let mut o = vec![("path", s(cx.path(did))), ("ty", n(ti)), ("span", cx.span(tcx.def_span(did)))];
                    let par = tcx.parent(did);
                    if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                        let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                        let sti = cx.ty(st);
                        o.push(("self_ty", n(sti)));
                        if matches!(tcx.def_kind(par), DefKind::Impl { of_trait: true }) {
                            let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(cx.path(tr.def_id))));
                        }
                    }
                    if !has_ty {
                        if let Ok(cv) = tcx.const_eval_poly(did) {
                            cx.constval(cv, t, &mut o);
                        }
                    }
                    consts.push(J::O(o));
                }
                _ => {}
            }
        }
        // make sure all local ADTs are present
        let ids: Vec<DefId> = tcx
            .hir_crate_items(())
            .definitions()
            .filter(|d| matches!(tcx.def_kind(d.to_def_id()), DefKind::Struct | DefKind::Enum))
            .map(|d| d.to_def_id())
            .collect();
        for d in ids {
            cx.env = TypingEnv::post_analysis(tcx, d);
            cx.adt(d);
        }
        let mut sizes = vec![];
        let adts: Vec<(String, J)> = {
            let mut v: Vec<(DefId, J)> =
                cx.adts.clone().into_iter().map(|(d, j)| (d, j.unwrap_or(J::N))).collect();
            v.sort_by_key(|(d, _)| cx.path(*d));
            v.into_iter().map(|(d, j)| (cx.path(d), j)).collect()
        };
        for (d, _) in cx.adts.iter() {
            if d.is_local() && tcx.generics_of(*d).own_params.is_empty() {
                let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                let e = TypingEnv::post_analysis(tcx, *d);
                if let Ok(l) = tcx.layout_of(e.as_query_input(t)) {
                    sizes.push((cx.path(*d), J::I(l.size.bytes() as i128)));
                }
            }
        }
        let nonce = std::env::var("CANDY_FACTS_NONCE").unwrap_or_default();
        let cfgs: Vec<J> = {
            let mut v: Vec<String> = tcx
                .sess
                .config
                .iter()
                .filter(|(k, _)| k.as_str() == "feature")
                .filter_map(|(_, v)| v.map(|x| x.as_str().to_string()))
                .collect();
            v.sort();
            v.into_iter().map(s).collect()
        };
        let root = J::O(vec![
            ("nonce", s(nonce)),
            ("features", J::A(cfgs)),
            ("types", J::A(cx.types.clone())),
            ("adts", J::M(adts)),
            ("sizes", J::M(sizes)),
            ("consts", J::A(consts)),
            ("fns", J::A(fns)),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let mut cb = Cb;
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
