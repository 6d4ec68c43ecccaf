//! rustc_private driver: behaves as rustc, and for the crates named in MIRDUMP_CRATES writes the
//! type-checked program (MIR bodies, resolved callees, ADT layouts, constants, impls) as JSON to
//! $MIRDUMP_OUT/<crate>[-bin].json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<String>,
    adts: HashMap<DefId, ()>,
    adtout: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        p
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(format!("{}", self.ty(t)));
            } else if let Some(c) = g.as_const() {
                v.push(esc(&format!("{:?}", c)));
            }
        }
        list(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(String::new());
        let s = format!("{:?}", t);
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!(
                "\"k\":\"int\",\"bits\":{}",
                it.bit_width().unwrap_or(64)
            ),
            ty::Uint(it) => format!(
                "\"k\":\"uint\",\"bits\":{}",
                it.bit_width().unwrap_or(64)
            ),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Adt(def, args) => {
                self.adt(*def);
                let a = self.args(args);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", esc(&self.path(def.did())), a)
            }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(*t), m.is_mut()),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", list(v))
            }
            ty::Array(t, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", self.ty(*t), n)
            }
            ty::Slice(t) => format!("\"k\":\"slice\",\"of\":{}", self.ty(*t)),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&self.path(*d)), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"def\":{}", esc(&self.path(*d))),
            ty::Dynamic(preds, ..) => format!(
                "\"k\":\"dyn\",\"trait\":{}",
                esc(&preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default())
            ),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tyout[i] = format!("{{\"s\":{},{}}}", esc(&s), body);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, ());
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(fty);
                fs.push(format!("{{\"name\":{},\"ty\":{}}}", esc(f.name.as_str()), t));
            }
            vs.push(format!(
                "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                esc(v.name.as_str()),
                discr,
                list(fs)
            ));
        }
        let mut layout = "null".to_string();
        if tcx.generics_of(did).own_counts().types == 0 {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, did);
            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                if def.is_struct() {
                    let n = def.non_enum_variant().fields.len();
                    let offs: Vec<String> =
                        (0..n).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                    layout = format!(
                        "{{\"size\":{},\"align\":{},\"offsets\":{}}}",
                        l.size.bytes(),
                        l.align.abi.bytes(),
                        list(offs)
                    );
                } else {
                    layout = format!("{{\"size\":{},\"align\":{}}}", l.size.bytes(), l.align.abi.bytes());
                }
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let repr = format!("{:?}", def.repr());
        self.adtout.push(format!(
            "{}:{{\"kind\":\"{}\",\"krate\":{},\"repr\":{},\"variants\":{},\"layout\":{}}}",
            esc(&self.path(did)),
            kind,
            esc(&self.krate(did)),
            esc(&repr),
            list(vs),
            layout
        ));
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => format!(
                    "[\"d\",{},{}]",
                    vi.as_usize(),
                    esc(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }
    fn fndef(&mut self, owner: DefId, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "\"path\":{},\"krate\":{},\"name\":{}",
            esc(&self.path(d)),
            esc(&self.krate(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())
        );
        let a = self.args(args);
        let _ = write!(o, ",\"args\":{}", a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
            let st = args.type_at(0);
            let _ = write!(o, ",\"self\":{}", self.ty(st));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"implself\":{}", self.ty(st));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        let args_e = tcx.erase_and_anonymize_regions(args);
        let resolved = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, env, d, args_e)
        }));
        if let Ok(Ok(Some(inst))) = resolved {
            let rd = inst.def_id();
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "other",
            };
            let ra = self.args(inst.args);
            let _ = write!(
                o,
                ",\"res\":{{\"path\":{},\"krate\":{},\"kind\":\"{}\",\"args\":{}}}",
                esc(&self.path(rd)),
                esc(&self.krate(rd)),
                k,
                ra
            );
        }
        format!("{{{}}}", o)
    }
    fn alloc(&mut self, owner: DefId, id: rustc_middle::mir::interpret::AllocId, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let n = a.len();
                if n > 1 << 20 {
                    return format!("{{\"big\":{}}}", n);
                }
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                let mut h = String::with_capacity(2 * n);
                for b in bytes {
                    let _ = write!(h, "{:02x}", b);
                }
                let mut rel = vec![];
                if depth < 4 {
                    for (off, prov) in a.provenance().ptrs().iter() {
                        let t = self.alloc(owner, prov.alloc_id(), depth + 1);
                        rel.push(format!("[{},{}]", off.bytes(), t));
                    }
                }
                format!("{{\"bytes\":\"{}\",\"rel\":{}}}", h, list(rel))
            }
            Some(GlobalAlloc::Function { instance, .. }) => {
                let f = self.fndef(owner, instance.def_id(), instance.args);
                format!("{{\"fn\":{}}}", f)
            }
            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
            _ => "{\"other\":1}".into(),
        }
    }
    fn constval(&mut self, owner: DefId, v: ConstValue) -> String {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                format!(",\"bits\":\"{}\",\"size\":{}", i.to_bits(i.size()), i.size().bytes())
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let a = self.alloc(owner, prov.alloc_id(), 0);
                format!(",\"ptr\":{},\"off\":{}", a, off.bytes())
            }
            ConstValue::ZeroSized => ",\"zst\":1".into(),
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.alloc(owner, alloc_id, 0);
                format!(",\"slice\":{},\"len\":{}", a, meta)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.alloc(owner, alloc_id, 0);
                format!(",\"mem\":{},\"off\":{}", a, offset.bytes())
            }
        }
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = format!("\"ty\":{}", ti);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(owner, *d, args.no_bound_vars().unwrap_or(args.skip_binder()));
            let _ = write!(o, ",\"fn\":{}", f);
            return format!("{{\"c\":{{{}}}}}", o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let a = self.args(u.args);
            let _ = write!(
                o,
                ",\"uneval\":{},\"ukrate\":{},\"uargs\":{}",
                esc(&self.path(u.def)),
                esc(&self.krate(u.def)),
                a
            );
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                let _ = write!(o, ",\"utrait\":{},\"uname\":{}", esc(&self.path(tr)),
                    esc(tcx.item_name(u.def).as_str()));
            }
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
            }
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            let s = self.constval(owner, v);
            o.push_str(&s);
        }
        format!("{{\"c\":{{{}}}}}", o)
    }
    fn op(&mut self, owner: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(owner, c),
            Operand::RuntimeChecks(k) => format!("{{\"rc\":{}}}", esc(&format!("{:?}", k))),
        }
    }
    fn rvalue(&mut self, owner: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(owner, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(owner, o), n)
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => {
                format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let os = self.op(owner, o);
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("PointerCoercion:{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), os, self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = (&ops.0, &ops.1);
                let (x, y) = (self.op(owner, x), self.op(owner, y));
                format!("[\"bin\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(owner, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"of\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        let a = self.args(args);
                        format!(
                            "{{\"k\":\"adt\",\"def\":{},\"vi\":{},\"vname\":{},\"args\":{}}}",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            esc(ad.variant(*vi).name.as_str()),
                            a
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"def\":{}}}", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(t, _) => format!("{{\"k\":\"rawptr\",\"of\":{}}}", self.ty(*t)),
                    _ => "{\"k\":\"other\"}".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(owner, o)).collect();
                format!("[\"agg\",{},{}]", kind, list(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> String {
        let mut locs = vec![];
        for l in b.local_decls.iter() {
            locs.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), p));
            }
        }
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = self.tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = (&a.0, &a.1);
                        let ps = self.place(p);
                        let rs = self.rvalue(owner, r);
                        ss.push(format!("[\"=\",{},{},{}]", ps, rs, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", ps, variant_index.as_usize(), line));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.op(owner, o);
                            ss.push(format!("[\"assume\",{},{}]", o, line));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (x, y, z) =
                                (self.op(owner, &c.src), self.op(owner, &c.dst), self.op(owner, &c.count));
                            ss.push(format!("[\"copy\",{},{},{},{}]", x, y, z, line));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "\"k\":\"switch\",\"op\":{},\"ts\":{},\"o\":{}",
                        self.op(owner, discr),
                        list(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"k\":\"ret\"".into(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
                TerminatorKind::UnwindResume => "\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "\"k\":\"abort\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, self.tcx).ty;
                    let ti = self.ty(pt);
                    format!("\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}", self.place(place), ti, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let v: Vec<String> = args.iter().map(|a| self.op(owner, &a.node)).collect();
                    let f = self.op(owner, func);
                    let dt = destination.ty(b, self.tcx).ty;
                    let dti = self.ty(dt);
                    format!(
                        "\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"dty\":{},\"t\":{}",
                        f,
                        list(v),
                        self.place(destination),
                        dti,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(..) => "divzero".into(),
                        AssertKind::RemainderByZero(..) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{}",
                        self.op(owner, cond),
                        expected,
                        esc(&m),
                        target.as_usize()
                    )
                }
                k => format!("\"k\":\"other\",\"s\":{}", esc(&format!("{:?}", k))),
            };
            bbs.push(format!(
                "{{\"s\":{},\"t\":{{{}}},\"sp\":{},\"cl\":{}}}",
                list(ss),
                ts,
                esc(&line),
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"bbs\":{}",
            b.arg_count,
            list(locs),
            list(names),
            list(bbs)
        )
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut consts = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let sp = self.span(tcx.def_span(d));
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    let bs = self.body(d, b);
                    let mut pr = vec![];
                    for p in tcx.promoted_mir(d).iter() {
                        pr.push(format!("{{{}}}", self.body(d, p)));
                    }
                    let mut extra = String::new();
                    if let Some(im) = tcx.impl_of_assoc(tcx.typeck_root_def_id(d)) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let _ = write!(extra, ",\"implself\":{}", self.ty(st));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let _ = write!(extra, ",\"impltrait\":{}", esc(&self.path(tr.skip_binder().def_id)));
                        }
                    }
                    if let Some(tr) = tcx.trait_of_assoc(tcx.typeck_root_def_id(d)) {
                        let _ = write!(extra, ",\"traitdefault\":{}", esc(&self.path(tr)));
                    }
                    let g = tcx.generics_of(d);
                    let mut gp = vec![];
                    for i in 0..g.count() {
                        let p = g.param_at(i, tcx);
                        if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { continue; }
                        gp.push(esc(p.name.as_str()));
                    }
                    let vis = if matches!(kind, DefKind::Closure) { "closure".to_string() } else {
                        format!("{:?}", tcx.visibility(d)) };
                    fns.push(format!(
                        "{}:{{\"kind\":\"{:?}\",\"name\":{},\"vis\":{},\"generics\":{},\"span\":{}{},{},\"promoted\":{}}}",
                        esc(&self.path(d)),
                        kind,
                        esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
                        esc(&vis),
                        list(gp),
                        esc(&sp),
                        extra,
                        bs,
                        list(pr)
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let mut o = format!("\"kind\":{},\"ty\":{},\"span\":{}", esc(&format!("{:?}", kind)), ti, esc(&sp));
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        if matches!(kind, DefKind::Static { .. }) {
                            if let Ok(a) = tcx.eval_static_initializer(d) {
                                let a = a.inner();
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                let mut h = String::new();
                                for b in bytes { let _ = write!(h, "{:02x}", b); }
                                let _ = write!(o, ",\"mem\":{{\"bytes\":\"{}\",\"rel\":[]}},\"off\":0", h);
                            }
                        } else if let Ok(v) = tcx.const_eval_poly(d) {
                            let s = self.constval(d, v);
                            o.push_str(&s);
                        }
                    }
                    let b = tcx.mir_for_ctfe(d);
                    let bs = self.body(d, b);
                    consts.push(format!("{}:{{{},\"body\":{{{}}}}}", esc(&self.path(d)), o, bs));
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                let tr = if of_trait {
                    tcx.impl_opt_trait_ref(d).map(|t| esc(&self.path(t.skip_binder().def_id))).unwrap_or("null".into())
                } else { "null".into() };
                let uns = of_trait && tcx.impl_trait_header(d).safety.is_unsafe();
                let items: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|i| esc(&self.path(*i))).collect();
                impls.push(format!("{{\"self\":{},\"trait\":{},\"unsafe\":{},\"items\":{}}}", sti, tr, uns, list(items)));
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let ad = tcx.adt_def(d);
                self.adt(ad);
            }
        }
        format!(
            "{{\"crate\":{},\n\"fns\":{{\n{}\n}},\n\"consts\":{{\n{}\n}},\n\"impls\":{},\n\"adts\":{{\n{}\n}},\n\"types\":[\n{}\n]}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            fns.join(",\n"),
            consts.join(",\n"),
            list(impls),
            self.adtout.join(",\n"),
            self.tyout.join(",\n")
        )
    }
}

struct Cb {
    dump: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.dump {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], adts: HashMap::new(), adtout: vec![] };
            let s = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(cx.run()));
            std::fs::write(format!("{}/{}.json", out, name), s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let dump = !is_test && want.split(',').any(|c| !c.is_empty() && c == name);
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { dump });
}
