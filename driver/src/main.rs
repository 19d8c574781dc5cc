#![feature(rustc_private)]
//! Fact extractor: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) that dumps,
//! for every body of the crate being checked, its MIR with resolved callees,
//! evaluated constants and field/variant names, plus the crate's ADTs, trait
//! impls and constants, as JSON.  No verdicts are made here.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    AggregateKind, AssertKind, BasicBlock, Body, CastKind, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
        tcx.def_path_str(d)
    )))
}
fn tystr(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
}
fn idstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!(
        "{}{}",
        tcx.crate_name(d.krate),
        tcx.def_path(d).to_string_no_crate_verbose()
    )
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn line(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        (
            format!("{}", lo.file.name.prefer_local_unconditionally()),
            lo.line,
        )
    }
    fn macros(&self, sp: Span) -> Option<String> {
        if !sp.from_expansion() {
            return None;
        }
        let mut names = vec![];
        for e in sp.macro_backtrace() {
            if let ExpnKind::Macro(_, n) = e.kind {
                names.push(n.to_string());
            }
        }
        if names.is_empty() {
            let d = sp.ctxt().outer_expn_data();
            return Some(match d.kind {
                ExpnKind::Desugaring(k) => format!("desugar:{}", k.descr()),
                ExpnKind::AstPass(k) => format!("ast:{}", k.descr()),
                _ => "?".into(),
            });
        }
        names.reverse();
        Some(names.join(">"))
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(f, _) => {
                    let (name, base) = self.field_name(pt, f);
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_u32(), esc(&name), esc(&base));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        o,
                        ",[\"v\",{},{}]",
                        v.as_u32(),
                        esc(&n.map(|s| s.to_string()).unwrap_or_default())
                    );
                }
                _ => o.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn field_name(
        &self,
        pt: rustc_middle::mir::PlaceTy<'tcx>,
        f: rustc_abi::FieldIdx,
    ) -> (String, String) {
        match pt.ty.kind() {
            ty::Adt(def, _) => {
                let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                let name = if def.variants().len() > v.as_usize() {
                    def.variant(v)
                        .fields
                        .get(f)
                        .map(|x| x.name.to_string())
                        .unwrap_or_default()
                } else {
                    String::new()
                };
                (name, pretty(self.tcx, def.did()))
            }
            ty::Closure(d, _) => {
                let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                (
                    names.get(f).map(|s| s.to_string()).unwrap_or_default(),
                    "{closure}".into(),
                )
            }
            _ => (f.as_u32().to_string(), String::new()),
        }
    }

    fn alloc_bytes(&self, s: &Scalar, t: Ty<'tcx>) -> Option<Vec<u8>> {
        // &[u8; N] and references to sized plain data
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return None,
        };
        let Scalar::Ptr(ptr, _) = s else { return None };
        let (prov, off) = ptr.into_raw_parts();
        let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(prov.alloc_id())? else {
            return None;
        };
        let a = a.inner();
        let layout = self.tcx.layout_of(self.env.as_query_input(inner)).ok()?;
        let n = layout.size.bytes_usize();
        let start = off.bytes_usize();
        if start + n > a.len() || !a.provenance().ptrs().is_empty() {
            return None;
        }
        Some(
            a.inspect_with_uninit_and_ptr_outside_interpreter(start..start + n)
                .to_vec(),
        )
    }

    fn constant(&self, c: &rustc_middle::mir::ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"fn\":{}}}", self.callee(*d, args.no_bound_vars().unwrap_or(ty::List::empty())));
        }
        let mut o = format!("{{\"ty\":{}", esc(&tystr(t)));
        if let rustc_middle::mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(
                    o,
                    ",\"promoted\":{},\"of\":{}",
                    p.as_u32(),
                    esc(&idstr(self.tcx, u.def))
                );
            } else {
                let _ = write!(o, ",\"item\":{}", esc(&pretty(self.tcx, u.def)));
                if let Some(s) = self.assoc_self(u.args) {
                    let _ = write!(o, ",\"cself\":{}", esc(&s));
                }
            }
        }
        if let rustc_middle::mir::Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"tyconst\":{}", esc(&format!("{ct}")));
        }
        // Promoteds of bodies are only evaluated when not generic.
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            c.const_.eval(self.tcx, self.env, c.span).ok()
        }))
        .ok()
        .flatten();
        if let Some(v) = v {
            self.constval(&mut o, v, t);
        }
        o.push('}');
        o
    }

    fn assoc_self(&self, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        args.types().next().map(tystr)
    }

    fn constval(&self, o: &mut String, v: ConstValue, t: Ty<'tcx>) {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let signed = matches!(t.kind(), ty::Int(_));
                if signed {
                    let _ = write!(o, ",\"int\":{}", i.size().sign_extend(bits));
                } else {
                    let _ = write!(o, ",\"int\":{}", bits);
                }
            }
            ConstValue::Scalar(s @ Scalar::Ptr(..)) => {
                if let Some(b) = self.alloc_bytes(&s, t) {
                    if b.len() <= 4096 {
                        let _ = write!(o, ",\"bytes\":[{}]", join(b.iter()));
                    }
                }
            }
            ConstValue::ZeroSized => o.push_str(",\"zst\":1"),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if b.len() <= 4096 {
                        if let ty::Ref(_, i, _) = t.kind() {
                            if i.is_str() {
                                let _ = write!(
                                    o,
                                    ",\"str\":{}",
                                    esc(&String::from_utf8_lossy(b))
                                );
                                return;
                            }
                        }
                        let _ = write!(o, ",\"bytes\":[{}]", join(b.iter()));
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = a.inner();
                    if let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        let n = layout.size.bytes_usize();
                        let st = offset.bytes_usize();
                        if n <= 4096 && st + n <= a.len() && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                            let _ = write!(o, ",\"mem\":[{}]", join(b.iter()));
                        }
                    }
                }
            }
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"id\":{},\"name\":{}",
            esc(&idstr(tcx, d)),
            esc(&pretty(tcx, d))
        );
        let ga: Vec<String> = args.types().map(|t| esc(&tystr(t))).collect();
        if !ga.is_empty() {
            let _ = write!(o, ",\"ga\":[{}]", ga.join(","));
        }
        let ca: Vec<String> = args.consts().map(|t| esc(&format!("{t}"))).collect();
        if !ca.is_empty() {
            let _ = write!(o, ",\"gc\":[{}]", ca.join(","));
        }
        // closures passed as generic arguments
        let cl: Vec<String> = args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(d, _) => Some(esc(&idstr(tcx, *d))),
                ty::FnDef(d, _) => Some(esc(&idstr(tcx, *d))),
                _ => None,
            })
            .collect();
        if !cl.is_empty() {
            let _ = write!(o, ",\"clo\":[{}]", cl.join(","));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(
                o,
                ",\"trait\":{},\"m\":{}",
                esc(&pretty(tcx, tr)),
                esc(&tcx.item_name(d).to_string())
            );
            if matches!(tcx.def_kind(d), DefKind::AssocFn) {
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    Instance::try_resolve(tcx, self.env, d, args)
                }))
                .unwrap_or(Ok(None))
                {
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            let _ = write!(
                                o,
                                ",\"rid\":{},\"rname\":{}",
                                esc(&idstr(tcx, rd)),
                                esc(&pretty(tcx, rd))
                            );
                        }
                        InstanceKind::Virtual(..) => o.push_str(",\"virt\":1"),
                        k => {
                            let s = format!("{k:?}");
                            let s = s.split('(').next().unwrap_or("").to_string();
                            let _ = write!(o, ",\"shim\":{}", esc(&s));
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn op(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(k) => {
                format!("[\"k\",{{\"ty\":\"bool\",\"rt\":{}}}]", esc(&format!("{k:?}")))
            }
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(body, o), n)
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, *p),
                matches!(k, rustc_middle::mir::BorrowKind::Mut { .. }) as u8
            ),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&ks),
                    self.op(body, o),
                    esc(&tystr(*t)),
                    esc(&tystr(o.ty(body, tcx)))
                )
            }
            Rvalue::BinaryOp(b, x) => {
                let (l, r) = &**x;
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    b,
                    self.op(body, l),
                    self.op(body, r),
                    esc(&tystr(l.ty(body, tcx)))
                )
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(body, x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                format!(
                    "[\"discr\",{},{}]",
                    self.place(body, *p),
                    esc(&match t.kind() {
                        ty::Adt(d, _) => pretty(tcx, d.did()),
                        _ => tystr(t),
                    })
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", esc(&tystr(*t))),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = match fi {
                            Some(fi) => vec![esc(&var.fields[*fi].name.to_string())],
                            None => var.fields.iter().map(|f| esc(&f.name.to_string())).collect(),
                        };
                        let ga: Vec<String> = args.types().map(|t| esc(&tystr(t))).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],[{}],{}]",
                            esc(&pretty(tcx, *d)),
                            v.as_u32(),
                            esc(&var.name.to_string()),
                            names.join(","),
                            ga.join(","),
                            def.is_enum() as u8
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", esc(&idstr(tcx, *d)))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&pretty(tcx, *d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", self.place(body, *p), m.is_mut() as u8)
            }
        }
    }

    fn body(&self, out: &mut String, d: DefId, body: &Body<'tcx>, promoted: Option<u32>) {
        let tcx = self.tcx;
        let (file, line) = self.line(body.span);
        let endline = {
            let sm = tcx.sess.source_map();
            sm.lookup_char_pos(body.span.source_callsite().hi()).line
        };
        let _ = write!(
            out,
            "{{\"id\":{},\"name\":{},\"kind\":{},\"file\":{},\"line\":{},\"eline\":{},\"argc\":{}",
            esc(&match promoted {
                Some(p) => format!("{}::{{promoted#{}}}", idstr(tcx, d), p),
                None => idstr(tcx, d),
            }),
            esc(&pretty(tcx, d)),
            esc(&format!("{:?}", tcx.def_kind(d))),
            esc(&file),
            line,
            endline,
            body.arg_count
        );
        if let Some(m) = self.macros(body.span) {
            let _ = write!(out, ",\"mac\":{}", esc(&m));
        }
        if promoted.is_none() {
            if tcx.is_closure_like(d) {
                let _ = write!(out, ",\"parent\":{}", esc(&idstr(tcx, tcx.typeck_root_def_id(d))));
            }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Some(ld) = d.as_local() {
                    let ev = tcx.effective_visibilities(());
                    let _ = write!(
                        out,
                        ",\"reach\":{},\"vis\":{}",
                        ev.is_reachable(ld) as u8,
                        esc(&format!("{:?}", tcx.visibility(d)))
                    );
                }
                let im = tcx.impl_of_assoc(d);
                if let Some(im) = im {
                    let _ = write!(
                        out,
                        ",\"self\":{}",
                        esc(&tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip()))
                    );
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(out, ",\"itrait\":{}", esc(&pretty(tcx, tr.def_id)));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(out, ",\"intrait\":{}", esc(&pretty(tcx, tr)));
                }
            }
        }
        // local names
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upvars = vec![];
        for v in &body.var_debug_info {
            if let rustc_middle::mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    upvars.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(body, p)));
                }
            }
        }
        out.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_u32() > 0 {
                out.push(',');
            }
            let _ = write!(out, "[{}", esc(&tystr(l.ty)));
            if let Some(n) = &names[i.as_usize()] {
                let _ = write!(out, ",{}", esc(n));
            }
            out.push(']');
        }
        let _ = write!(out, "],\"upv\":[{}],\"blocks\":[", upvars.join(","));
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                out.push(',');
            }
            if b.is_cleanup {
                out.push_str("null");
                continue;
            }
            out.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let r = match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        Some(format!(
                            "[{},{},{}",
                            self.line(s.source_info.span).1,
                            self.place(body, *p),
                            self.rvalue(body, r)
                        ))
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => Some(format!(
                        "[{},{},[\"setd\",{}]",
                        self.line(s.source_info.span).1,
                        self.place(body, **place),
                        variant_index.as_u32()
                    )),
                    StatementKind::StorageDead(l) => {
                        Some(format!("[0,[{}],[\"dead\"]", l.as_u32()))
                    }
                    _ => None,
                };
                if let Some(mut r) = r {
                    if let Some(m) = self.macros(s.source_info.span) {
                        let _ = write!(r, ",{}", esc(&m));
                    }
                    r.push(']');
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    out.push_str(&r);
                }
            }
            out.push_str("],\"t\":");
            let t = b.terminator();
            let ln = self.line(t.source_info.span).1;
            let bb = |b: BasicBlock| b.as_u32();
            let _ = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    write!(out, "{{\"k\":\"goto\",\"to\":{}", bb(*target))
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, bb(b)))
                        .collect();
                    write!(
                        out,
                        "{{\"k\":\"switch\",\"op\":{},\"ts\":[{}],\"else\":{},\"dty\":{}",
                        self.op(body, discr),
                        ts.join(","),
                        bb(targets.otherwise()),
                        esc(&tystr(discr.ty(body, tcx)))
                    )
                }
                TerminatorKind::Return => write!(out, "{{\"k\":\"ret\""),
                TerminatorKind::Unreachable => write!(out, "{{\"k\":\"unreachable\""),
                TerminatorKind::Drop { place, target, .. } => write!(
                    out,
                    "{{\"k\":\"drop\",\"p\":{},\"to\":{}",
                    self.place(body, *place),
                    bb(*target)
                ),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    fn_span,
                    ..
                } => {
                    let a: Vec<String> = args.iter().map(|a| self.op(body, &a.node)).collect();
                    write!(
                        out,
                        "{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"to\":{},\"cl\":{}",
                        self.op(body, func),
                        a.join(","),
                        self.place(body, *destination),
                        target.map(|t| bb(t).to_string()).unwrap_or("null".into()),
                        self.line(*fn_span).1
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.op(body, len),
                            self.op(body, index)
                        ),
                        AssertKind::Overflow(b, l, r) => format!(
                            "[\"overflow\",\"{:?}\",{},{},{}]",
                            b,
                            self.op(body, l),
                            self.op(body, r),
                            esc(&tystr(l.ty(body, tcx)))
                        ),
                        AssertKind::OverflowNeg(l) => format!("[\"neg\",{}]", self.op(body, l)),
                        AssertKind::DivisionByZero(l) => format!("[\"div0\",{}]", self.op(body, l)),
                        AssertKind::RemainderByZero(l) => {
                            format!("[\"rem0\",{}]", self.op(body, l))
                        }
                        _ => "[\"other\"]".to_string(),
                    };
                    write!(
                        out,
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"msg\":{},\"to\":{}",
                        self.op(body, cond),
                        *expected as u8,
                        m,
                        bb(*target)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    write!(out, "{{\"k\":\"goto\",\"to\":{}", bb(*real_target))
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    write!(out, "{{\"k\":\"goto\",\"to\":{}", bb(*real_target))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    write!(out, "{{\"k\":\"unreachable\"")
                }
                _ => write!(out, "{{\"k\":\"other\""),
            };
            let _ = write!(out, ",\"ln\":{}", ln);
            if let Some(m) = self.macros(t.source_info.span) {
                let _ = write!(out, ",\"mac\":{}", esc(&m));
            }
            out.push_str("}}");
        }
        out.push_str("]}");
    }
}

fn join<'a>(it: impl Iterator<Item = &'a u8>) -> String {
    it.map(|b| b.to_string()).collect::<Vec<_>>().join(",")
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.ub_checks = Some(false);
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("SA_OUT") else {
            return Compilation::Continue;
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate.starts_with("build_script") {
            return Compilation::Continue;
        }
        let mut out = String::with_capacity(1 << 22);
        let _ = write!(out, "{{\"crate\":{},\"bodies\":[\n", esc(&krate));
        let mut first = true;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            if tcx.is_constructor(d) {
                continue;
            }
            let cx = Cx {
                tcx,
                env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d)),
            };
            let body = tcx.optimized_mir(d);
            if !first {
                out.push_str(",\n");
            }
            first = false;
            cx.body(&mut out, d, body, None);
            for (p, pb) in tcx.promoted_mir(d).iter_enumerated() {
                out.push_str(",\n");
                cx.body(&mut out, d, pb, Some(p.as_u32()));
            }
        }
        out.push_str("],\n\"adts\":[\n");
        first = true;
        let mut impls = String::new();
        let mut consts = String::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    if !first {
                        out.push_str(",\n");
                    }
                    first = false;
                    let _ = write!(
                        out,
                        "{{\"name\":{},\"enum\":{},\"variants\":[",
                        esc(&pretty(tcx, d)),
                        def.is_enum() as u8
                    );
                    for (i, v) in def.variants().iter_enumerated() {
                        if i.as_u32() > 0 {
                            out.push(',');
                        }
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, i).val
                        } else {
                            0
                        };
                        let _ = write!(
                            out,
                            "{{\"name\":{},\"discr\":{},\"fields\":[",
                            esc(&v.name.to_string()),
                            discr
                        );
                        for (j, f) in v.fields.iter().enumerate() {
                            if j > 0 {
                                out.push(',');
                            }
                            let _ = write!(
                                out,
                                "[{},{},{}]",
                                esc(&f.name.to_string()),
                                esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                esc(&format!("{:?}", f.vis))
                            );
                        }
                        out.push_str("]}");
                    }
                    out.push_str("]}");
                }
                DefKind::Impl { .. } => {
                    if !impls.is_empty() {
                        impls.push_str(",\n");
                    }
                    let st = tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    let tr = tcx
                        .impl_opt_trait_ref(d)
                        .map(|t| pretty(tcx, t.instantiate_identity().skip_norm_wip().def_id));
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                        .map(|a| {
                            format!(
                                "{}:{}",
                                esc(&a.name().to_string()),
                                esc(&idstr(tcx, a.def_id))
                            )
                        })
                        .collect();
                    let auto = tcx.is_automatically_derived(d);
                    let _ = write!(
                        impls,
                        "{{\"self\":{},\"trait\":{},\"m\":{{{}}},\"derived\":{}}}",
                        esc(&st),
                        tr.map(|t| esc(&t)).unwrap_or("null".into()),
                        ms.join(","),
                        auto as u8
                    );
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    if matches!(tcx.def_kind(d), DefKind::AssocConst { .. })
                        && tcx.trait_of_assoc(d).is_some()
                    {
                        continue;
                    }
                    let cx = Cx {
                        tcx,
                        env: TypingEnv::fully_monomorphized(),
                    };
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let mut o = format!(
                            "{{\"name\":{},\"ty\":{}",
                            esc(&pretty(tcx, d)),
                            esc(&tystr(t))
                        );
                        cx.constval(&mut o, v, t);
                        o.push('}');
                        if !consts.is_empty() {
                            consts.push_str(",\n");
                        }
                        consts.push_str(&o);
                    }
                }
                _ => {}
            }
        }
        let _ = write!(out, "],\n\"impls\":[\n{impls}],\n\"consts\":[\n{consts}]}}\n");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{krate}.json"), out).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "-vV" || a == "--version") || std::env::var("SA_OUT").is_err() {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
