//! rfacts: a rustc driver that dumps the type-checked program (drop-elaborated MIR, items, impls,
//! constants) of the workspace crates as JSON. It never runs any of the analysed code; named
//! constants are evaluated by the compiler's own constant evaluator as in any build.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

mod json;
use json::{arr, int, obj, s, J};

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};

macro_rules! canon {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e)))
    };
}
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: String,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    canon!(tcx.def_path_str(d))
}

fn ty_s<'tcx>(t: Ty<'tcx>) -> String {
    canon!(format!("{t}"))
}

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    (
        format!("{}", lo.file.name.prefer_local_unconditionally()),
        lo.line,
    )
}

fn line(tcx: TyCtxt<'_>, sp: Span) -> J {
    int(span_j(tcx, sp).1 as i128)
}

struct Cx<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

fn adt_of<'tcx>(t: Ty<'tcx>) -> Option<(ty::AdtDef<'tcx>, ty::GenericArgsRef<'tcx>)> {
    if let ty::Adt(a, g) = t.kind() {
        Some((*a, *g))
    } else {
        None
    }
}

fn callee<'tcx>(
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    d: DefId,
    args: ty::GenericArgsRef<'tcx>,
) -> J {
    let mut v: Vec<(&'static str, J)> = vec![
        ("def", s(path(tcx, d))),
        ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
        ("crate", s(tcx.crate_name(d.krate).to_string())),
        (
            "args",
            arr(args.iter().map(|a| s(canon!(format!("{a}")))).collect()),
        ),
    ];
    if let Some(t) = tcx.trait_of_assoc(d) {
        v.push(("trait", s(path(tcx, t))));
        if !args.is_empty() {
            if let Some(t0) = args[0].as_type() {
                v.push(("self", s(ty_s(t0))));
                match t0.kind() {
                    ty::Dynamic(..) => v.push(("dyn", int(1))),
                    ty::Param(_) => v.push(("param", int(1))),
                    ty::Alias(..) => v.push(("param", int(1))),
                    _ => {}
                }
            }
        }
    } else if let Some(im) = tcx.impl_of_assoc(d) {
        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        v.push(("impl_self", s(ty_s(st))));
        if let Some(t) = tcx.impl_opt_trait_id(im) {
            v.push(("impl_trait", s(path(tcx, t))));
        }
    }
    if matches!(
        tcx.def_kind(d),
        DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure
    ) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, env, d, args)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            if rd != d {
                v.push(("res", s(path(tcx, rd))));
                v.push((
                    "res_args",
                    arr(inst.args.iter().map(|a| s(canon!(format!("{a}")))).collect()),
                ));
            } else if !matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                v.push(("exact", int(1)));
            }
        }
        if tcx.def_kind(d) != DefKind::Closure {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.safety().is_unsafe() {
                v.push(("unsafe", int(1)));
            }
        }
    }
    obj(v)
}

impl<'tcx, 'a> Cx<'tcx, 'a> {
    fn place(&self, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*".into()),
                ProjectionElem::Field(f, _) => {
                    let mut v = vec![("f", int(f.as_u32() as i128))];
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if !a.is_union() || true {
                                let fd = &a.variant(vi).fields[f];
                                v.push(("n", s(fd.name.to_string())));
                                v.push(("o", s(path(self.tcx, a.did()))));
                            }
                        }
                        ty::Closure(d, _) => {
                            v.push(("o", s(path(self.tcx, *d))));
                            v.push(("cap", int(1)));
                        }
                        _ => {}
                    }
                    obj(v)
                }
                ProjectionElem::Index(l) => obj(vec![("i", int(l.as_u32() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => obj(vec![
                    ("ci", int(offset as i128)),
                    ("fe", int(from_end as i128)),
                ]),
                ProjectionElem::Subslice { from, to, .. } => obj(vec![
                    ("sub", int(from as i128)),
                    ("to", int(to as i128)),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_u32()),
                    };
                    obj(vec![("d", s(n))])
                }
                _ => s("?".into()),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        if proj.is_empty() {
            obj(vec![("l", int(p.local.as_u32() as i128))])
        } else {
            obj(vec![("l", int(p.local.as_u32() as i128)), ("p", arr(proj))])
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ct = c.const_;
        let t = ct.ty();
        let mut v = vec![("k", s("const".into()))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                v.push(("fn", callee(tcx, self.env, *d, args)));
                return obj(v);
            }
            _ => {}
        }
        v.push(("ty", s(ty_s(t))));
        if let Const::Unevaluated(u, _) = ct {
            v.push(("named", s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                v.push(("promoted", int(p.as_u32() as i128)));
            }
            if !u.args.is_empty() && tcx.trait_of_assoc(u.def).is_some() {
                v.push(("cself", s(canon!(format!("{}", u.args[0])))));
            }
        }
        if let Const::Ty(_, c) = ct {
            v.push(("tyconst", s(canon!(format!("{c}")))));
        }
        self.const_val(ct, t, &mut v);
        obj(v)
    }

    fn const_val(&self, ct: mir::Const<'tcx>, t: Ty<'tcx>, v: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        // Promoteds and generic constants may be too generic to evaluate.
        if let Const::Unevaluated(u, _) = ct {
            use rustc_middle::ty::TypeVisitableExt;
            if u.args.has_param() || u.args.has_aliases() {
                return;
            }
            if u.promoted.is_some() {
                return;
            }
        }
        if let Some(b) = ct.try_eval_bits(tcx, self.env) {
            v.push(("bits", s(format!("{b}"))));
        } else if let Ok(cv) = ct.eval(tcx, self.env, rustc_span::DUMMY_SP) {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        v.push(("str", s(String::from_utf8_lossy(b).into_owned())));
                    }
                }
            }
        }
    }

    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj(vec![("k", s("copy".into())), ("pl", self.place(*p))]),
            Operand::Move(p) => obj(vec![("k", s("move".into())), ("pl", self.place(*p))]),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => obj(vec![("k", s("rtcheck".into()))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => obj(vec![("r", s("use".into())), ("op", self.operand(o))]),
            Rvalue::Repeat(o, n) => obj(vec![
                ("r", s("repeat".into())),
                ("op", self.operand(o)),
                ("n", s(format!("{n}"))),
            ]),
            Rvalue::Ref(_, bk, p) => obj(vec![
                ("r", s("ref".into())),
                ("mut", int(matches!(bk, BorrowKind::Mut { .. }) as i128)),
                ("fake", int(matches!(bk, BorrowKind::Fake(_)) as i128)),
                ("pl", self.place(*p)),
            ]),
            Rvalue::RawPtr(k, p) => obj(vec![
                ("r", s("rawptr".into())),
                ("mut", int(matches!(k, RawPtrKind::Mut) as i128)),
                ("pl", self.place(*p)),
            ]),
            Rvalue::Cast(k, o, t) => obj(vec![
                ("r", s("cast".into())),
                ("kind", s(format!("{k:?}"))),
                ("op", self.operand(o)),
                ("from", s(ty_s(o.ty(self.body, tcx)))),
                ("ty", s(ty_s(*t))),
            ]),
            Rvalue::BinaryOp(b, ab) => obj(vec![
                ("r", s("bin".into())),
                ("op", s(format!("{b:?}"))),
                ("a", self.operand(&ab.0)),
                ("b", self.operand(&ab.1)),
            ]),
            Rvalue::UnaryOp(u, o) => obj(vec![
                ("r", s("un".into())),
                ("op", s(format!("{u:?}"))),
                ("a", self.operand(o)),
            ]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(self.body, tcx).ty;
                let mut v = vec![
                    ("r", s("discr".into())),
                    ("pl", self.place(*p)),
                    ("ty", s(ty_s(pt))),
                ];
                if let Some((a, _)) = adt_of(pt) {
                    v.push(("adt", s(path(tcx, a.did()))));
                    if a.is_enum() {
                        v.push((
                            "vars",
                            arr(a
                                .discriminants(tcx)
                                .map(|(i, d)| {
                                    arr(vec![
                                        s(format!("{}", d.val)),
                                        s(a.variant(i).name.to_string()),
                                    ])
                                })
                                .collect()),
                        ));
                    }
                }
                obj(v)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("r", s("agg".into()))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("kind", s("array".into()))),
                    AggregateKind::Tuple => v.push(("kind", s("tuple".into()))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        v.push(("kind", s("adt".into())));
                        v.push(("adt", s(path(tcx, *d))));
                        let a = tcx.adt_def(*d);
                        v.push(("variant", s(a.variant(*vi).name.to_string())));
                        v.push((
                            "fields",
                            arr(a.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                        let t = ty::Ty::new_adt(tcx, a, args);
                        v.push(("ty", s(ty_s(t))));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("kind", s("closure".into())));
                        v.push(("def", s(path(tcx, *d))));
                    }
                    _ => v.push(("kind", s("other".into()))),
                }
                v.push(("ops", arr(ops.iter().map(|o| self.operand(o)).collect())));
                obj(v)
            }
            Rvalue::CopyForDeref(p) => obj(vec![
                ("r", s("use".into())),
                ("op", obj(vec![("k", s("copy".into())), ("pl", self.place(*p))])),
            ]),
            other => obj(vec![("r", s("other".into())), ("dbg", s(format!("{other:?}")))]),
        }
    }

    fn bb(&self, b: BasicBlock) -> J {
        int(b.as_u32() as i128)
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => self.bb(*b),
            UnwindAction::Continue => s("continue".into()),
            UnwindAction::Unreachable => s("unreachable".into()),
            UnwindAction::Terminate(_) => s("terminate".into()),
        }
    }

    fn blocks(&self) -> J {
        let tcx = self.tcx;
        let body = self.body;
        arr(body
            .basic_blocks
            .iter()
            .map(|bb| {
                let mut st = vec![];
                for x in &bb.statements {
                    match &x.kind {
                        StatementKind::Assign(b) => st.push(obj(vec![
                            ("s", s("=".into())),
                            ("pl", self.place(b.0)),
                            ("rv", self.rvalue(&b.1)),
                            ("ln", line(tcx, x.source_info.span)),
                        ])),
                        StatementKind::SetDiscriminant { place, variant_index } => st.push(obj(vec![
                            ("s", s("setdiscr".into())),
                            ("pl", self.place(**place)),
                            ("v", int(variant_index.as_u32() as i128)),
                        ])),
                        StatementKind::StorageLive(l) => st.push(obj(vec![
                            ("s", s("live".into())),
                            ("l", int(l.as_u32() as i128)),
                        ])),
                        StatementKind::StorageDead(l) => st.push(obj(vec![
                            ("s", s("dead".into())),
                            ("l", int(l.as_u32() as i128)),
                        ])),
                        StatementKind::Intrinsic(_) => {
                            st.push(obj(vec![("s", s("intrinsic".into()))]))
                        }
                        _ => {}
                    }
                }
                let t = bb.terminator();
                let ln = line(tcx, t.source_info.span);
                let tj = match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        obj(vec![("t", s("goto".into())), ("to", self.bb(*target))])
                    }
                    TerminatorKind::SwitchInt { discr, targets } => obj(vec![
                        ("t", s("switch".into())),
                        ("op", self.operand(discr)),
                        ("opty", s(ty_s(discr.ty(body, tcx)))),
                        (
                            "targets",
                            arr(targets
                                .iter()
                                .map(|(v, b)| arr(vec![s(format!("{v}")), self.bb(b)]))
                                .collect()),
                        ),
                        ("otherwise", self.bb(targets.otherwise())),
                        ("ln", ln),
                    ]),
                    TerminatorKind::UnwindResume => obj(vec![("t", s("resume".into()))]),
                    TerminatorKind::UnwindTerminate(_) => obj(vec![("t", s("abort".into()))]),
                    TerminatorKind::Return => obj(vec![("t", s("return".into()))]),
                    TerminatorKind::Unreachable => obj(vec![("t", s("unreachable".into()))]),
                    TerminatorKind::Drop { place, target, unwind, .. } => obj(vec![
                        ("t", s("drop".into())),
                        ("pl", self.place(*place)),
                        ("ty", s(ty_s(place.ty(body, tcx).ty))),
                        ("to", self.bb(*target)),
                        ("uw", self.unwind(unwind)),
                        ("ln", ln),
                    ]),
                    TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                        let f = match func {
                            Operand::Constant(_) => self.operand(func),
                            _ => obj(vec![
                                ("k", s("ind".into())),
                                ("op", self.operand(func)),
                                ("ty", s(ty_s(func.ty(body, tcx)))),
                            ]),
                        };
                        let mut v = vec![
                            ("t", s("call".into())),
                            ("f", f),
                            ("args", arr(args.iter().map(|a| self.operand(&a.node)).collect())),
                            ("dst", self.place(*destination)),
                            ("uw", self.unwind(unwind)),
                            ("ln", line(tcx, *fn_span)),
                        ];
                        if let Some(t) = target {
                            v.push(("to", self.bb(*t)));
                        }
                        let ex = t.source_info.span.ctxt().outer_expn_data();
                        if let rustc_span::ExpnKind::Macro(_, n) = ex.kind {
                            v.push(("mac", s(n.to_string())));
                        } else if let rustc_span::ExpnKind::Desugaring(k) = ex.kind {
                            v.push(("desu", s(format!("{k:?}"))));
                        }
                        obj(v)
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                        let kind = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds",
                            AssertKind::Overflow(..) => "overflow",
                            AssertKind::OverflowNeg(..) => "overflow_neg",
                            AssertKind::DivisionByZero(..) => "div0",
                            AssertKind::RemainderByZero(..) => "rem0",
                            AssertKind::MisalignedPointerDereference { .. } => "align",
                            AssertKind::NullPointerDereference => "null",
                            AssertKind::NullReferenceConstructed => "null",
                            AssertKind::InvalidEnumConstruction(..) => "enum",
                            _ => "other",
                        };
                        let mut v = vec![
                            ("t", s("assert".into())),
                            ("kind", s(kind.into())),
                            ("cond", self.operand(cond)),
                            ("exp", int(*expected as i128)),
                            ("to", self.bb(*target)),
                            ("uw", self.unwind(unwind)),
                            ("ln", ln),
                        ];
                        match &**msg {
                            AssertKind::BoundsCheck { len, index } => {
                                v.push(("len", self.operand(len)));
                                v.push(("idx", self.operand(index)));
                            }
                            AssertKind::Overflow(b, x, y) => {
                                v.push(("op", s(format!("{b:?}"))));
                                v.push(("a", self.operand(x)));
                                v.push(("b", self.operand(y)));
                            }
                            _ => {}
                        }
                        obj(v)
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => {
                        obj(vec![("t", s("goto".into())), ("to", self.bb(*real_target))])
                    }
                    TerminatorKind::FalseUnwind { real_target, .. } => {
                        obj(vec![("t", s("goto".into())), ("to", self.bb(*real_target))])
                    }
                    other => obj(vec![("t", s("other".into())), ("dbg", s(format!("{other:?}")))]),
                };
                let mut v = vec![("st", arr(st)), ("term", tj)];
                if bb.is_cleanup {
                    v.push(("cl", int(1)));
                }
                obj(v)
            })
            .collect())
    }

    fn body_j(&self) -> Vec<(&'static str, J)> {
        let b = self.body;
        vec![
            ("argc", int(b.arg_count as i128)),
            (
                "locals",
                arr(b.local_decls.iter().map(|d| s(ty_s(d.ty))).collect()),
            ),
            (
                "vars",
                arr(b
                    .var_debug_info
                    .iter()
                    .filter_map(|v| match &v.value {
                        VarDebugInfoContents::Place(p) => Some(obj(vec![
                            ("n", s(v.name.to_string())),
                            ("pl", self.place(*p)),
                        ])),
                        _ => None,
                    })
                    .collect()),
            ),
            ("bbs", self.blocks()),
        ]
    }
}

fn dump_fn(tcx: TyCtxt<'_>, ld: LocalDefId) -> Option<J> {
    let d = ld.to_def_id();
    let kind = tcx.def_kind(d);
    let body: &Body<'_> = match kind {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
            tcx.mir_for_ctfe(d)
        }
        _ => return None,
    };
    let env = TypingEnv::post_analysis(tcx, d);
    let cx = Cx { tcx, body, env };
    let (file, ln) = span_j(tcx, tcx.def_span(d));
    let mut v = vec![
        ("path", s(path(tcx, d))),
        ("kind", s(format!("{kind:?}").split([' ', '{']).next().unwrap().to_string())),
        ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
        ("file", s(file)),
        ("line", int(ln as i128)),
        ("exp", int(tcx.def_span(d).from_expansion() as i128)),
    ];
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        let sig = tcx.fn_sig(d).skip_binder();
        v.push(("unsafe", int(sig.safety().is_unsafe() as i128)));
        v.push(("abi", s(format!("{:?}", sig.abi()))));
        v.push(("pub", int(tcx.visibility(d).is_public() as i128)));
        v.push(("reach", int(tcx.effective_visibilities(()).is_reachable(ld) as i128)));
        let at = tcx.codegen_fn_attrs(d);
        v.push(("exported", int(at.contains_extern_indicator() as i128)));
        let g = tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..g.count() {
            names.push(s(g.param_at(i, tcx).name.to_string()));
        }
        v.push(("generics", arr(names)));
    }
    if kind == DefKind::Closure {
        v.push(("parent", s(path(tcx, tcx.typeck_root_def_id(d)))));
        let mut ups = vec![];
        if let ty::Closure(_, args) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
            for t in args.as_closure().upvar_tys() {
                ups.push(s(ty_s(t)));
            }
        }
        v.push(("upvars", arr(ups)));
    }
    if let Some(t) = tcx.trait_of_assoc(d) {
        v.push(("in_trait", s(path(tcx, t))));
    }
    if let Some(im) = tcx.impl_of_assoc(d) {
        v.push(("impl", s(path(tcx, im))));
        v.push((
            "impl_self",
            s(ty_s(tcx.type_of(im).instantiate_identity().skip_norm_wip())),
        ));
        if let Some(t) = tcx.impl_opt_trait_id(im) {
            v.push(("impl_trait", s(path(tcx, t))));
            v.push((
                "impl_tref",
                s(canon!(format!(
                    "{}",
                    tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip()
                ))),
            ));
        }
    }
    v.extend(cx.body_j());
    if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        let pr = tcx.promoted_mir(d);
        if !pr.is_empty() {
            v.push((
                "promoted",
                arr(pr
                    .iter()
                    .map(|b| {
                        let c = Cx { tcx, body: b, env };
                        obj(c.body_j())
                    })
                    .collect()),
            ));
        }
    } else {
        // the value of a constant
        let g = tcx.generics_of(d);
        if g.count() == 0 {
            let ct = mir::Const::Unevaluated(
                UnevaluatedConst::new(d, ty::GenericArgs::identity_for_item(tcx, d)),
                tcx.type_of(d).instantiate_identity().skip_norm_wip(),
            );
            if !matches!(kind, DefKind::Static { .. }) {
                cx.const_val(ct, tcx.type_of(d).instantiate_identity().skip_norm_wip(), &mut v);
            }
        }
    }
    Some(obj(v))
}

fn dump(tcx: TyCtxt<'_>) -> J {
    let mut fns = vec![];
    for ld in tcx.mir_keys(()) {
        if let Some(j) = dump_fn(tcx, *ld) {
            fns.push(j);
        }
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let (file, ln) = span_j(tcx, tcx.def_span(d));
                adts.push(obj(vec![
                    ("path", s(path(tcx, d))),
                    ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                    ("file", s(file)),
                    ("line", int(ln as i128)),
                    ("pub", int(tcx.visibility(d).is_public() as i128)),
                    ("reprc", int(a.repr().c() as i128)),
                    ("repr", s(format!("{:?}", a.repr().int))),
                    (
                        "variants",
                        arr(a
                            .variants()
                            .iter_enumerated()
                            .map(|(i, vd)| {
                                let mut w = vec![
                                    ("name", s(vd.name.to_string())),
                                    (
                                        "fields",
                                        arr(vd
                                            .fields
                                            .iter()
                                            .map(|f| {
                                                obj(vec![
                                                    ("name", s(f.name.to_string())),
                                                    (
                                                        "ty",
                                                        s(ty_s(
                                                            tcx.type_of(f.did)
                                                                .instantiate_identity()
                                                                .skip_norm_wip(),
                                                        )),
                                                    ),
                                                    ("pub", int(f.vis.is_public() as i128)),
                                                ])
                                            })
                                            .collect()),
                                    ),
                                ];
                                if a.is_enum() {
                                    w.push((
                                        "discr",
                                        s(format!("{}", a.discriminant_for_variant(tcx, i).val)),
                                    ));
                                }
                                obj(w)
                            })
                            .collect()),
                    ),
                ]));
            }
            DefKind::Impl { .. } => {
                let mut v = vec![
                    ("path", s(path(tcx, d))),
                    (
                        "self",
                        s(ty_s(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ),
                    (
                        "items",
                        arr(tcx
                            .associated_item_def_ids(d)
                            .iter()
                            .map(|i| {
                                arr(vec![
                                    s(tcx.opt_item_name(*i).map(|x| x.to_string()).unwrap_or_default()),
                                    s(path(tcx, *i)),
                                ])
                            })
                            .collect()),
                    ),
                    ("line", line(tcx, tcx.def_span(d))),
                    ("file", s(span_j(tcx, tcx.def_span(d)).0)),
                ];
                if let Some(t) = tcx.impl_opt_trait_id(d) {
                    let h = tcx.impl_trait_header(d);
                    v.push(("trait", s(path(tcx, t))));
                    v.push(("unsafe", int(h.safety.is_unsafe() as i128)));
                    v.push((
                        "tref",
                        s(canon!(format!(
                            "{}",
                            h.trait_ref.instantiate_identity().skip_norm_wip()
                        ))),
                    ));
                }
                impls.push(obj(v));
            }
            DefKind::Trait { .. } => {
                traits.push(obj(vec![
                    ("path", s(path(tcx, d))),
                    (
                        "items",
                        arr(tcx
                            .associated_items(d)
                            .in_definition_order()
                            .map(|i| {
                                arr(vec![
                                    s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                                    int(i.defaultness(tcx).has_value() as i128),
                                    s(path(tcx, i.def_id)),
                                ])
                            })
                            .collect()),
                    ),
                ]));
            }
            _ => {}
        }
    }
    obj(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("fns", arr(fns)),
        ("adts", arr(adts)),
        ("impls", arr(impls)),
        ("traits", arr(traits)),
    ])
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = dump(tcx);
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = if tcx.crate_types().contains(&rustc_structures::CrateType::Executable) {
            "bin"
        } else {
            "lib"
        };
        let mut o = String::new();
        j.write(&mut o);
        let f = format!("{}/{}.{}.json", self.out, name, kind);
        std::fs::write(format!("{f}.tmp"), o).expect("write facts");
        std::fs::rename(format!("{f}.tmp"), f).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let out = std::env::var("RFACTS_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    if out.is_empty() || is_build_script || !args.iter().any(|a| a == "--crate-name") {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
