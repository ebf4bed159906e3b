// MIR dumper: a rustc driver run as RUSTC_WORKSPACE_WRAPPER.  For every crate of the workspace
// under analysis it writes the type-checked program (ADTs, signatures, MIR bodies with resolved
// callees, constants, promoteds and source positions) as JSON into $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    S(String),
    I(i128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.out(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeSet<(String, DefIdKey)>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct DefIdKey(u32, u32);
fn key(d: DefId) -> DefIdKey {
    DefIdKey(d.krate.as_u32(), d.index.as_u32())
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        self.fixp(p, d)
    }
    fn fixp(&self, p: String, d: DefId) -> String {
        if d.is_local() {
            let c = self.tcx.crate_name(LOCAL_CRATE);
            if p.starts_with('<') {
                format!("{c}!{p}")
            } else {
                format!("{c}::{p}")
            }
        } else {
            // cross-crate impl paths: keep the same shape as in the defining crate
            let c = self.tcx.crate_name(d.krate).to_string();
            if p.starts_with('<') {
                let q = p.replace(&format!("{c}::"), "");
                format!("{c}!{q}")
            } else {
                p
            }
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn note_adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        self.adts.insert((p.clone(), key(d)));
        p
    }
    fn adt_of(&mut self, t: Ty<'tcx>) -> J {
        let t = t.peel_refs();
        if let ty::Adt(a, _) = t.kind() {
            let p = self.note_adt(a.did());
            s(p)
        } else {
            J::Null
        }
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        let mut macros = vec![];
        for e in sp.macro_backtrace() {
            macros.push(s(e.kind.descr()));
        }
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        let mut v = vec![s(f), J::I(lo.line as i128), J::I(lo.col.0 as i128)];
        if !macros.is_empty() {
            v.push(J::A(macros));
        }
        J::A(v)
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, _) => {
                    let (owner, fname) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let owner = self.note_adt(a.did());
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => {
                                    a.variant(rustc_abi::VariantIdx::from_u32(0))
                                }
                                None => a.non_enum_variant(),
                            };
                            (
                                format!("{owner}::{}", v.name),
                                v.fields[f].name.to_string(),
                            )
                        }
                        ty::Tuple(_) => ("tuple".to_string(), f.as_usize().to_string()),
                        ty::Closure(..) => ("closure".to_string(), f.as_usize().to_string()),
                        _ => ("?".to_string(), f.as_usize().to_string()),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(owner), s(fname)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("v"),
                    J::I(v.as_usize() as i128),
                    s(n.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                _ => J::A(vec![s("o")]),
            };
            pt = pt.projection_ty(self.tcx, e);
            proj.push(j);
        }
        J::O(vec![
            ("l", J::I(p.local.as_usize() as i128)),
            ("p", J::A(proj)),
            ("t", s(self.ty(pt.ty))),
        ])
    }
    fn constant(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| (*args).skip_binder());
                return self.callee(te, *d, args);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![
                    ("k", s("promoted")),
                    ("i", J::I(p.as_usize() as i128)),
                    ("of", s(self.path(u.def))),
                    ("t", s(self.ty(t))),
                ]);
            }
        }
        let name = if let Const::Unevaluated(u, _) = c.const_ {
            s(self.path(u.def))
        } else {
            J::Null
        };
        // scalar?
        if t.is_bool() || t.is_integral() || t.is_char() {
            if let Some(bits) = c.const_.try_eval_bits(self.tcx, te) {
                if t.is_bool() {
                    return J::O(vec![("k", s("bool")), ("v", J::B(bits != 0)), ("n", name)]);
                }
                if t.is_char() {
                    return J::O(vec![("k", s("char")), ("v", J::I(bits as i128)), ("n", name)]);
                }
                let v = if t.is_signed() {
                    let size = c.const_.try_eval_scalar_int(self.tcx, te).unwrap().size();
                    let sh = 128 - size.bits();
                    (((bits << sh) as i128) >> sh) as i128
                } else {
                    bits as i128
                };
                return J::O(vec![
                    ("k", s("int")),
                    ("v", J::I(v)),
                    ("t", s(self.ty(t))),
                    ("n", name),
                ]);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if e.is_integral()) {
                if let Ok(v) = c.const_.eval(self.tcx, te, c.span) {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        return J::O(vec![
                            ("k", s("str")),
                            ("v", s(String::from_utf8_lossy(bytes))),
                            ("n", name),
                        ]);
                    }
                }
            }
        }
        let _ = b;
        let txt = with_no_trimmed_paths!(format!("{}", c.const_));
        // statics
        if let Some(d) = c.check_static_ptr(self.tcx) {
            return J::O(vec![("k", s("static")), ("path", s(self.path(d))), ("t", s(self.ty(t)))]);
        }
        J::O(vec![
            ("k", s("const")),
            ("t", s(self.ty(t))),
            ("n", name),
            ("x", s(txt)),
        ])
    }
    fn callee(&mut self, te: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fn")), ("path", s(self.path(d)))];
        let a: Vec<J> = args
            .iter()
            .filter_map(|g| g.as_type())
            .map(|t| s(self.ty(t)))
            .collect();
        o.push(("a", J::A(a)));
        let erased = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, d, erased) {
            let rd = i.def_id();
            o.push(("r", s(self.path(rd))));
            o.push((
                "kind",
                s(match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                }),
            ));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            let adtp = self.note_adt(adt);
            o.push(("ctor", J::A(vec![s(adtp), s(var)])));
        }
        J::O(o)
    }
    fn operand(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(b, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(b, p))]),
            Operand::Constant(c) => self.constant(b, te, c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("const")), ("x", s(format!("{op:?}")))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::O(vec![("r", s("use")), ("o", self.operand(b, te, op))]),
            Rvalue::Repeat(op, n) => J::O(vec![
                ("r", s("repeat")),
                ("o", self.operand(b, te, op)),
                ("n", s(format!("{n}"))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(b, p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("raw", J::B(true)),
                ("p", self.place(b, p)),
            ]),
            Rvalue::Cast(k, op, t) => J::O(vec![
                ("r", s("cast")),
                ("k", s(format!("{k:?}"))),
                ("o", self.operand(b, te, op)),
                ("t", s(self.ty(*t))),
            ]),
            Rvalue::BinaryOp(op, x) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(b, te, &x.0)),
                ("b", self.operand(b, te, &x.1)),
            ]),
            Rvalue::UnaryOp(op, x) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(b, te, x)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let adt = self.adt_of(t);
                J::O(vec![("r", s("discr")), ("p", self.place(b, p)), ("adt", adt)])
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<J> = ops.iter().map(|o| self.operand(b, te, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let p = self.note_adt(*d);
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let f: Vec<J> = var.fields.iter().map(|f| s(f.name)).collect();
                        J::A(vec![s("adt"), s(p), s(var.name), J::A(f), J::B(adt.is_enum())])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::O(vec![("r", s("agg")), ("k", kj), ("a", J::A(a))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("o", J::O(vec![("c", self.place(b, p))])),
            ]),
            _ => J::O(vec![("r", s("other")), ("x", s(format!("{r:?}")))]),
        }
    }
    fn body(&mut self, d: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let adt = self.adt_of(l.ty);
            let clo = match l.ty.peel_refs().kind() {
                ty::Closure(cd, _) => s(self.path(*cd)),
                _ => J::Null,
            };
            locals.push(J::O(vec![("t", s(self.ty(l.ty))), ("adt", adt), ("clo", clo)]));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name), self.place(b, p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut sts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        sts.push(J::O(vec![
                            ("s", s("=")),
                            ("p", self.place(b, &a.0)),
                            ("v", self.rvalue(b, te, &a.1)),
                            ("sp", self.span(st.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => sts.push(J::O(vec![
                        ("s", s("setd")),
                        ("p", self.place(b, place)),
                        ("i", J::I(variant_index.as_usize() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bi = |x: BasicBlock| J::I(x.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", bi(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut arms = vec![];
                    for (v, t) in targets.iter() {
                        arms.push(J::A(vec![J::I(v as i128), bi(t)]));
                    }
                    let ty = discr.ty(&b.local_decls, tcx);
                    J::O(vec![
                        ("t", s("switch")),
                        ("o", self.operand(b, te, discr)),
                        ("ty", s(self.ty(ty))),
                        ("arms", J::A(arms)),
                        ("else", bi(targets.otherwise())),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => J::O(vec![
                    ("t", s("drop")),
                    ("p", self.place(b, place)),
                    ("to", bi(*target)),
                ]),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, te, &x.node)).collect();
                    J::O(vec![
                        ("t", s("call")),
                        ("f", self.operand(b, te, func)),
                        ("a", J::A(a)),
                        ("d", self.place(b, destination)),
                        ("to", target.map(bi).unwrap_or(J::Null)),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::O(vec![
                        ("t", s("assert")),
                        ("o", self.operand(b, te, cond)),
                        ("exp", J::B(*expected)),
                        ("msg", s(m)),
                        ("to", bi(*target)),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::UnwindResume => J::O(vec![("t", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("abort"))]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", bi(*real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", bi(*real_target))])
                }
                k => J::O(vec![("t", s("other")), ("x", s(format!("{k:?}")))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(sts)),
                ("t", tj),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_static = matches!(kind, DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. });
            if !is_fn && !is_static {
                continue;
            }
            let mut o = vec![("path", s(self.path(d))), ("kind", s(format!("{kind:?}")))];
            o.push(("sp", self.span(tcx.def_span(d))));
            let body = if is_fn {
                tcx.optimized_mir(d)
            } else {
                tcx.mir_for_ctfe(d)
            };
            if is_fn && kind != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push((
                    "sig",
                    J::A(sig.inputs_and_output.iter().map(|t| s(self.ty(t))).collect()),
                ));
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                let ev = tcx.effective_visibilities(());
                o.push(("exported", J::B(ev.is_reachable(ld))));
            }
            if kind == DefKind::Closure {
                let p = tcx.parent(d);
                o.push(("parent", s(self.path(p))));
                let cap: Vec<J> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| {
                        J::A(vec![
                            s(c.var_ident.name),
                            J::B(c.is_by_ref()),
                        ])
                    })
                    .collect();
                o.push(("caps", J::A(cap)));
            }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                o.push(("self", s(self.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    o.push((
                        "impl_trait",
                        s(self.path(tr.skip_binder().def_id)),
                    ));
                }
            }
            if let Some(n) = tcx.opt_item_name(d) {
                o.push(("name", s(n)));
            }
            o.push(("body", self.body(d, body)));
            if is_fn {
                let pr = tcx.promoted_mir(d);
                let v: Vec<J> = pr.iter().map(|b| self.body(d, b)).collect();
                o.push(("promoted", J::A(v)));
            }
            fns.push(J::O(o));
        }
        let mut done: BTreeSet<DefIdKey> = BTreeSet::new();
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                self.note_adt(id.to_def_id());
            }
        }
        for (p, k) in self.adts.clone() {
            if !done.insert(k) {
                continue;
            }
            let d = DefId {
                krate: rustc_span::def_id::CrateNum::from_u32(k.0),
                index: rustc_span::def_id::DefIndex::from_u32(k.1),
            };
            let a = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if a.is_enum() {
                a.discriminants(tcx).map(|(i, x)| (i, x.val as i128)).collect()
            } else {
                vec![]
            };
            for (i, v) in a.variants().iter_enumerated() {
                let f: Vec<J> = v
                    .fields
                    .iter()
                    .map(|f| {
                        J::A(vec![
                            s(f.name),
                            s(self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                        ])
                    })
                    .collect();
                let dv = discrs
                    .iter()
                    .find(|x| x.0 == i)
                    .map(|x| x.1)
                    .unwrap_or(i.as_usize() as i128);
                vs.push(J::A(vec![s(v.name), J::I(dv), J::A(f)]));
            }
            adts.push(J::O(vec![
                ("path", s(p)),
                ("enum", J::B(a.is_enum())),
                ("local", J::B(d.is_local())),
                ("variants", J::A(vs)),
                ("exported", J::B(d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false))),
            ]));
        }
        // trait impls: which are derived
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let d = id.to_def_id();
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.skip_binder();
                    let st = tr.self_ty();
                    impls.push(J::O(vec![
                        ("trait", s(self.path(tr.def_id))),
                        ("self", s(self.ty(st))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
        ])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let mut d = D {
                tcx,
                adts: BTreeSet::new(),
            };
            let j = d.run();
            let mut o = String::new();
            j.out(&mut o);
            std::fs::write(format!("{dir}/{name}.json"), o).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    let _ = code;
    std::process::exit(if format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
