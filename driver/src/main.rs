//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: type-checks a workspace crate exactly as
//! cargo asked and writes its built MIR (pre-borrowck, pre-coroutine-transform), its types,
//! trait impls and attributes as JSON into $RZ_DUMP_DIR.  Nothing of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_structures;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    enums: std::cell::RefCell<BTreeMap<String, String>>,
}

impl<'tcx> Cx<'tcx> {
    fn ty_s(&self, t: Ty<'tcx>) -> String {
        let s = with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(format!("{}", t))));
        self.fix(&s)
    }
    // `crate::x` -> `<krate>::x`
    fn fix(&self, s: &str) -> String {
        let mut out = String::with_capacity(s.len() + 16);
        let b = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if s[i..].starts_with("crate::")
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b':'))
            {
                out.push_str(&self.krate);
                out.push_str("::");
                i += 7;
            } else {
                let c = s[i..].chars().next().unwrap();
                out.push(c);
                i += c.len_utf8();
            }
        }
        out
    }
    fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Mod if d.is_crate_root() => return tcx.crate_name(d.krate).to_string(),
            _ => {}
        }
        if d.is_crate_root() {
            return tcx.crate_name(d.krate).to_string();
        }
        let parent = tcx.parent(d);
        let last = tcx.def_path(d).data.last().map(|x| {
            let s = x.as_sym(true).to_string();
            s
        }).unwrap_or_default();
        match tcx.def_kind(parent) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>::{}", self.self_name(st), self.canon(tr.def_id), last)
                } else {
                    format!("{}::{}", self.self_name(st), last)
                }
            }
            _ => {
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    return self.canon(parent);
                }
                format!("{}::{}", self.canon(parent), last)
            }
        }
    }
    fn self_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.canon(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.self_name(*t)),
            _ => self.ty_s(t),
        }
    }
    fn id(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:x}", h.0.to_smaller_hash().as_u64())
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    strs: std::cell::RefCell<()>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("[{},[", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_u32());
                    match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pty.variant_index {
                                Some(v) => v,
                                None if a.is_enum() => rustc_abi::FIRST_VARIANT,
                                None => rustc_abi::FIRST_VARIANT,
                            };
                            if v.as_usize() < a.variants().len() {
                                if let Some(fd) = a.variant(v).fields.get(f) {
                                    name = fd.name.to_string();
                                }
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(ld) = d.as_local() {
                                let ups: Vec<_> = tcx.closure_captures(ld).iter().collect();
                                if let Some(u) = ups.get(f.as_usize()) {
                                    name = format!("^{}", u.to_symbol());
                                }
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(o, "[\".\",{}]", q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"[]\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"[c]\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"[..]\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => format!("v{}", v.as_u32()),
                    };
                    let _ = write!(o, "[\"as\",{}]", q(&name));
                }
                _ => o.push_str("\"?\""),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder());
        }
        let tys = self.cx.ty_s(t);
        let mut extra = String::new();
        match c.const_ {
            Const::Val(v, ty) => {
                if let Some(s) = self.cval(v, ty) {
                    extra = s;
                }
            }
            Const::Unevaluated(u, ty) => {
                let _ = write!(extra, ",\"def\":{}", q(&self.cx.canon(u.def)));
                if u.promoted.is_none() && u.args.is_empty() {
                    // named constant: its value is part of the program text
                    let ok = matches!(ty.kind(), ty::Ref(..) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char);
                    if ok && matches!(tcx.def_kind(u.def), DefKind::Const {..} | DefKind::AssocConst {..}) {
                        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                            if let Some(s) = self.cval(v, ty) {
                                extra.push_str(&s);
                            }
                        }
                    }
                }
            }
            Const::Ty(_, k) => {
                let _ = write!(extra, ",\"tyconst\":{}", q(&format!("{}", k)));
                if let ty::ConstKind::Value(v) = k.kind() {
                    if matches!(v.ty.kind(), ty::Ref(_, i, _) if i.is_str()) {
                        if let Some(b) = v.try_to_raw_bytes(tcx) {
                            if let Ok(s) = std::str::from_utf8(b) {
                                let _ = write!(extra, ",\"str\":{}", q(s));
                            }
                        }
                    }
                }
            }
        }
        format!("{{\"ty\":{}{}}}", q(&tys), extra)
    }

    fn cval(&self, v: ConstValue, ty: Ty<'tcx>) -> Option<String> {
        let tcx = self.cx.tcx;
        match ty.kind() {
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8) {
                    let bytes = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    let mut o = String::new();
                    match std::str::from_utf8(bytes) {
                        Ok(s) => {
                            let _ = write!(o, ",\"str\":{}", q(s));
                        }
                        Err(_) => {
                            let _ = write!(o, ",\"bytes\":{:?}", bytes);
                        }
                    }
                    return Some(o);
                }
                if let ty::Array(t, n) = inner.kind() {
                    if *t == tcx.types.u8 {
                        let n = n.try_to_target_usize(tcx)? as usize;
                        if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                            let (prov, off) = p.into_raw_parts();
                            if let interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                let a = a.inner();
                                let off = off.bytes_usize();
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                                return Some(format!(",\"bytes\":{:?}", bytes));
                            }
                        }
                    }
                }
                None
            }
            ty::Bool => v.try_to_scalar_int().and_then(|s| s.try_to_bool().ok()).map(|b| format!(",\"v\":{}", b as u8)),
            ty::Char => v.try_to_scalar_int().map(|s| {
                let u = s.to_bits_unchecked();
                format!(",\"v\":{},\"ch\":{}", u, q(&char::from_u32(u as u32).unwrap_or('?').to_string()))
            }),
            ty::Int(_) => v.try_to_scalar_int().map(|s| {
                let sz = s.size();
                format!(",\"v\":{}", sz.sign_extend(s.to_bits_unchecked()))
            }),
            ty::Uint(_) => v.try_to_scalar_int().map(|s| format!(",\"v\":{}", s.to_bits_unchecked())),
            ty::Float(_) => v.try_to_scalar_int().map(|s| format!(",\"fbits\":{}", s.to_bits_unchecked())),
            ty::Adt(a, _) if a.is_enum() => {
                // fieldless enum constant
                let s = v.try_to_scalar_int()?;
                let u = s.to_bits_unchecked();
                for (vi, d) in a.discriminants(tcx) {
                    if d.val == u {
                        return Some(format!(",\"variant\":{}", q(&a.variant(vi).name.to_string())));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("{{\"fn\":{},\"id\":{}", q(&self.cx.canon(d)), q(&self.cx.id(d)));
        let tys: Vec<String> = args.types().map(|t| q(&self.cx.ty_s(t))).collect();
        let _ = write!(o, ",\"ga\":[{}]", tys.join(","));
        let cls: Vec<String> = args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(d, _) | ty::Coroutine(d, _) | ty::FnDef(d, _) => Some(q(&self.cx.id(*d))),
                _ => None,
            })
            .collect();
        if !cls.is_empty() {
            let _ = write!(o, ",\"gc\":[{}]", cls.join(","));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", q(&self.cx.canon(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args2) {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(o, ",\"rfn\":{},\"rid\":{}", q(&self.cx.canon(rd)), q(&self.cx.id(rd)));
                }
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    o.push_str(",\"virt\":1");
                } else {
                    o.push_str(",\"res\":1");
                }
            }
        } else if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push_str(",\"ctor\":1");
        }
        o.push('}');
        o
    }

    fn op(&self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"k\",{\"ty\":\"bool\",\"rt\":1}]".to_string(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), q(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                    #[allow(unreachable_patterns)]
                    _ => "m",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"r\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.op(o), q(&self.cx.ty_s(*t))),
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ab.0), self.op(&ab.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                if let ty::Adt(a, _) = t.kind() {
                    let n = self.cx.canon(a.did());
                    if !self.cx.enums.borrow().contains_key(&n) && a.is_enum() {
                        let v: Vec<String> = a
                            .discriminants(tcx)
                            .map(|(vi, d)| format!("[{},{}]", q(&a.variant(vi).name.to_string()), d.val))
                            .collect();
                        self.cx.enums.borrow_mut().insert(n, format!("[{}]", v.join(",")));
                    }
                }
                format!("[\"discr\",{},{}]", self.place(p), q(&self.cx.self_name(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let a = tcx.adt_def(*d);
                        let var = a.variant(*v);
                        let fs: Vec<String> = match af {
                            Some(f) => vec![q(&var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| q(&f.name.to_string())).collect(),
                        };
                        format!(
                            "{{\"k\":\"adt\",\"adt\":{},\"var\":{},\"enum\":{},\"f\":[{}]}}",
                            q(&self.cx.canon(*d)),
                            q(&var.name.to_string()),
                            a.is_enum(),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let kind = if matches!(**k, AggregateKind::Coroutine(..)) { "coroutine" } else { "closure" };
                        let mut names = vec![];
                        if let Some(ld) = d.as_local() {
                            for u in tcx.closure_captures(ld).iter() {
                                names.push(q(&format!("^{}", u.to_symbol())));
                            }
                        }
                        format!("{{\"k\":\"{}\",\"id\":{},\"f\":[{}]}}", kind, q(&self.cx.id(*d)), names.join(","))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, ops.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"m\",{}]", self.place(p)),
            _ => "[\"?\"]".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> u32 {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.cx.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as u32
    }

    fn dump(&self) -> String {
        let _ = &self.strs;
        let body = self.body;
        let mut o = String::new();
        // locals
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        let mut ups: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else {
                    ups.push(format!("[{},{}]", q(&v.name.to_string()), self.place(&p)));
                }
            }
        }
        o.push_str("\"locals\":[");
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_u32() > 0 {
                o.push(',');
            }
            let _ = write!(o, "[{}", q(&self.cx.ty_s(d.ty)));
            if let Some(n) = names.get(&l.as_u32()) {
                let _ = write!(o, ",{}", q(n));
            }
            o.push(']');
        }
        let _ = write!(o, "],\"dbg\":[{}],\"argc\":{},\"blocks\":[", ups.join(","), body.arg_count);
        for (b, bb) in body.basic_blocks.iter_enumerated() {
            if b.as_u32() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        if matches!(r, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
                            continue;
                        }
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.line(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(place), variant_index.as_u32())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            let _ = write!(o, "],\"c\":{},\"t\":", bb.is_cleanup as u8);
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    format!("[\"sw\",{},[{}],{},{}]", self.op(discr), ts.join(","), targets.otherwise().as_u32(), ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.cx.tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), q(&self.cx.ty_s(t)))
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, call_source, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let ln2 = self.line(*fn_span);
                    let src = match call_source {
                        CallSource::Normal => "n",
                        CallSource::OverloadedOperator => "o",
                        CallSource::Misc => "m",
                        _ => "m",
                    };
                    let col = {
                        let sp = fn_span.source_callsite();
                        if sp.is_dummy() { 0 } else { self.cx.tcx.sess.source_map().lookup_char_pos(sp.lo()).col.0 }
                    };
                    format!(
                        "[\"call\",{},[{}],{},{},{},\"{}\",{}]",
                        self.op(func),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                        ln2,
                        src,
                        col
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("{{\"k\":\"bounds\",\"len\":{},\"idx\":{}}}", self.op(len), self.op(index)),
                        AssertKind::Overflow(op, a, b) => format!("{{\"k\":\"overflow\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.op(a), self.op(b)),
                        AssertKind::DivisionByZero(_) => "{\"k\":\"div0\"}".into(),
                        AssertKind::RemainderByZero(_) => "{\"k\":\"rem0\"}".into(),
                        _ => "{\"k\":\"other\"}".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, k, target.as_u32(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{},{}]", self.op(value), resume.as_u32(), self.place(resume_arg), ln)
                }
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push(']');
        o
    }
}

fn attrs_json<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> String {
    let hir_id = tcx.local_def_id_to_hir_id(d);
    let mut v = vec![];
    for a in tcx.hir_attrs(hir_id) {
        if let rustc_attr_ir::Attribute::DeriveHelper(_) | rustc_attr_ir::Attribute::Tool(_) = a {
            let s = rustc_hir_pretty::attribute_to_string(&(&tcx as &dyn rustc_hir::intravisit::HirTyCtxt<'_>), a);
            v.push(q(s.trim()));
        }
    }
    format!("[{}]", v.join(","))
}

struct Cb {
    out: String,
}

type Store = std::sync::Mutex<Vec<(LocalDefId, Body<'static>)>>;
static BODIES: Store = std::sync::Mutex::new(Vec::new());
static ORIG: std::sync::OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>> =
    std::sync::OnceLock::new();

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let st = (ORIG.get().unwrap())(tcx, d);
    let b: Body<'tcx> = st.borrow().clone();
    // the clones live (and are used) only while this `tcx` lives
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.lock().unwrap().push((d, b));
    st
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = my_mir_built;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut skipped = vec![];
        let mut wanted = vec![];
        for d in tcx.hir_body_owners() {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
                _ => continue,
            }
            let _ = tcx.mir_built(d);
            wanted.push(d);
        }
        {
            let got = std::mem::take(&mut *BODIES.lock().unwrap());
            let mut map: BTreeMap<u32, Body<'static>> = BTreeMap::new();
            for (d, b) in got {
                map.entry(d.local_def_index.as_u32()).or_insert(b);
            }
            for d in wanted {
                match map.remove(&d.local_def_index.as_u32()) {
                    Some(b) => {
                        let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                        bodies.push((d, b));
                    }
                    None => skipped.push(q(&tcx.def_path_str(d))),
                }
            }
            std::mem::forget(map);
        }
        let cx = Cx { tcx, krate: krate.clone(), enums: Default::default() };
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"skipped\":[{}],\"fns\":[\n", q(&krate), skipped.join(","));
        let mut first = true;
        for (d, b) in &bodies {
            let did = d.to_def_id();
            let kind = match tcx.def_kind(did) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Static { .. } => "static",
                _ => "const",
            };
            let env = TypingEnv::post_typeck_through_borrowck_for_mir_build(tcx, *d);
            let bc = BodyCx { cx: &cx, body: b, env, strs: Default::default() };
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(b.span.lo());
            let hi = sm.lookup_char_pos(b.span.hi());
            let mut file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
            if let Ok(cwd) = std::env::current_dir() {
                let c = format!("{}/", cwd.display());
                if file.starts_with(&c) {
                    file = file[c.len()..].to_string();
                }
            }
            let parent = tcx.parent(did);
            let mut extra = String::new();
            if kind == "closure" || kind == "coroutine" {
                let _ = write!(extra, ",\"parent\":{}", q(&cx.id(parent)));
            }
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"self\":{}", q(&cx.self_name(st)));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"trait\":{}", q(&cx.canon(tr.def_id)));
                    if let Some(ti) = tcx.associated_item(did).trait_item_def_id() {
                        let _ = write!(extra, ",\"tid\":{}", q(&cx.id(ti)));
                    }
                }
                if tcx.is_automatically_derived(parent) {
                    extra.push_str(",\"derived\":1");
                }
            } else if let DefKind::Trait = tcx.def_kind(parent) {
                let _ = write!(extra, ",\"intrait\":{}", q(&cx.canon(parent)));
            }
            if matches!(kind, "fn" | "method") {
                let vis = tcx.visibility(did);
                let _ = write!(extra, ",\"pub\":{}", vis.is_public());
                let _ = write!(extra, ",\"attrs\":{}", attrs_json(tcx, *d));
            }
            if b.span.from_expansion() {
                extra.push_str(",\"macro\":1");
            }
            let _ = write!(
                o,
                "{{\"path\":{},\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"end\":{}{},{}}}",
                q(&cx.canon(did)),
                q(&cx.id(did)),
                kind,
                q(&file),
                lo.line,
                hi.line,
                extra,
                bc.dump()
            );
        }
        o.push_str("\n],\"adts\":[\n");
        // types
        let mut first = true;
        let mut impls = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d.to_def_id());
                    if !first {
                        o.push_str(",\n");
                    }
                    first = false;
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let at = f.did.as_local().map(|l| attrs_json(tcx, l)).unwrap_or("[]".into());
                            fs.push(format!("{{\"n\":{},\"ty\":{},\"attrs\":{}}}", q(&f.name.to_string()), q(&cx.ty_s(ft)), at));
                        }
                        let at = v.def_id.as_local().map(|l| attrs_json(tcx, l)).unwrap_or("[]".into());
                        vs.push(format!("{{\"n\":{},\"attrs\":{},\"f\":[{}]}}", q(&v.name.to_string()), at, fs.join(",")));
                    }
                    let sp = tcx.def_span(d);
                    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
                    let mut file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
                    if let Ok(cwd) = std::env::current_dir() {
                        let c = format!("{}/", cwd.display());
                        if file.starts_with(&c) {
                            file = file[c.len()..].to_string();
                        }
                    }
                    let _ = write!(
                        o,
                        "{{\"path\":{},\"enum\":{},\"file\":{},\"line\":{},\"attrs\":{},\"vars\":[{}]}}",
                        q(&cx.canon(d.to_def_id())),
                        a.is_enum(),
                        q(&file),
                        lo.line,
                        attrs_json(tcx, d),
                        vs.join(",")
                    );
                }
                DefKind::Impl { of_trait: true } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"derived\":{}}}",
                        q(&cx.self_name(st)),
                        q(&cx.canon(tr.def_id)),
                        tcx.is_automatically_derived(d.to_def_id())
                    ));
                }
                _ => {}
            }
        }
        let en: Vec<String> = cx.enums.borrow().iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let _ = write!(o, "\n],\"enums\":{{{}}},\"impls\":[{}]}}\n", en.join(",\n"), impls.join(",\n"));
        let ct = if tcx.crate_types().iter().any(|c| matches!(c, rustc_structures::CrateType::Executable)) { "bin" } else { "lib" };
        let p = format!("{}/{}.{}.json", self.out, krate, ct);
        std::fs::write(&p, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("RZ_DUMP_DIR").unwrap_or_default();
    let probing = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    if out.is_empty() || probing {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
