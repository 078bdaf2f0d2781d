#![feature(rustc_private)]
//! Compiler driver that dumps, for every body of the crate being checked, the MIR as built
//! (before any transformation, so coroutines are still structured and no promotion happened)
//! together with resolved callees, ADT layouts, impl tables and evaluated constants.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, Body, ConstOperand, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Mutex;

static BODIES: Mutex<Vec<(LocalDefId, usize)>> = Mutex::new(Vec::new());
type BuiltFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: Mutex<Option<BuiltFn>> = Mutex::new(None);

fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let orig = ORIG.lock().unwrap().unwrap();
    let r = orig(tcx, def);
    let b: Box<Body<'tcx>> = Box::new(r.borrow().clone());
    let p = Box::into_raw(b) as *mut () as usize;
    BODIES.lock().unwrap().push((def, p));
    r
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        // No incremental reuse: a reused body would not be dumped.
        config.opts.incremental = None;
        config.override_queries = Some(|_s, p| {
            let mut o = ORIG.lock().unwrap();
            *o = Some(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dumper::new(tcx);
        let js = d.run();
        let bin = tcx.entry_fn(()).is_some();
        let name = if bin { format!("{name}_bin") } else { name };
        let path = format!("{}/{}.{}.json", self.out, name, std::process::id());
        let tmp = format!("{path}.tmp{}", std::process::id());
        std::fs::write(&tmp, js).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        rustc_driver_impl::Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tindex: HashMap<String, usize>,
    tinfo: Vec<String>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
    krate: String,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper {
            tcx,
            types: vec![],
            tindex: HashMap::new(),
            tinfo: vec![],
            adts: HashMap::new(),
            adt_order: vec![],
            krate: tcx.crate_name(LOCAL_CRATE).to_string(),
        }
    }
    fn did(&self, d: DefId) -> String {
        // Stable, crate-qualified identifier, identical from whichever crate it is written.
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn fix(&self, s: String) -> String {
        // `crate::x` -> `<name>::x`
        let mut out = String::with_capacity(s.len() + 16);
        let b = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if s[i..].starts_with("crate::")
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
            {
                out.push_str(&self.krate);
                out.push_str("::");
                i += 7;
            } else {
                let ch = s[i..].chars().next().unwrap();
                out.push(ch);
                i += ch.len_utf8();
            }
        }
        out
    }
    fn path(&self, d: DefId) -> String {
        self.fix(with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d))))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        self.fix(with_no_trimmed_paths!(with_crate_prefix!(format!("{t}"))))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.tys(t);
        if let Some(&i) = self.tindex.get(&s) {
            return i;
        }
        let i = self.types.len();
        self.types.push(s.clone());
        self.tindex.insert(s, i);
        self.tinfo.push(String::new());
        // structural info: peel references
        let info = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", esc(&self.did(def.did())), list(a))
            }
            ty::Ref(_, x, m) => {
                let k = self.ty(*x);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), k)
            }
            ty::RawPtr(x, m) => {
                let k = self.ty(*x);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), k)
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", list(a))
            }
            ty::Slice(x) => {
                let k = self.ty(*x);
                format!("{{\"k\":\"slice\",\"t\":{}}}", k)
            }
            ty::Array(x, _) => {
                let k = self.ty(*x);
                format!("{{\"k\":\"array\",\"t\":{}}}", k)
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                format!("{{\"k\":\"closure\",\"d\":{}}}", esc(&self.did(*d)))
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"d\":{}}}", esc(&self.did(*d))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Dynamic(..) => "{\"k\":\"dyn\"}".to_string(),
            ty::Bool => "{\"k\":\"bool\"}".to_string(),
            ty::Int(_) | ty::Uint(_) => "{\"k\":\"int\"}".to_string(),
            ty::Str => "{\"k\":\"str\"}".to_string(),
            _ => "{\"k\":\"other\"}".to_string(),
        };
        self.tinfo[i] = info;
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        self.adt_order.push(d);
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if d.is_local() {
                        let t = tcx.type_of(f.did).instantiate_identity();
                        self.ty(t.skip_norm_wip()).to_string()
                    } else {
                        "-1".to_string()
                    };
                    let vis = if f.vis.is_public() { "pub" } else { "priv" };
                    format!("[{},{},{}]", esc(f.name.as_str()), t, esc(vis))
                })
                .collect();
            vs.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(&discr), list(fs)));
        }
        let s = format!(
            "{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"variants\":{}}}",
            esc(&self.did(d)),
            esc(&self.path(d)),
            kind,
            list(vs)
        );
        self.adts.insert(d, s);
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut o = format!("[{}", p.local.as_usize());
        for el in p.projection.iter() {
            o.push(',');
            match el {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(def.did());
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = n.map(|s| s.to_string()).unwrap_or_else(|| match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    });
                    let _ = write!(o, "[\"v\",{},{}]", vi.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }
    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "{{\"d\":{},\"p\":{}",
            esc(&self.did(d)),
            esc(&self.path(d)),
        );
        let ga: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"a\":{}", list(ga));
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let ty::AssocContainer::Trait = ai.container {
                let tr = tcx.parent(d);
                let _ = write!(s, ",\"tr\":{},\"n\":{}", esc(&self.did(tr)), esc(ai.name().as_str()));
                if args.len() > 0 {
                    if let Some(t) = args.types().next() {
                        let k = self.ty(t);
                        let _ = write!(s, ",\"self\":{}", k);
                    }
                }
                let ok = tcx.def_kind(d) == DefKind::AssocFn;
                if ok {
                    let args2 = tcx.erase_and_anonymize_regions(args);
                    let env2 = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(owner));
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env2, d, args2) {
                        let rd = inst.def_id();
                        let kind = match inst.def {
                            ty::InstanceKind::Item(_) => "item",
                            ty::InstanceKind::Virtual(..) => "virtual",
                            _ => "shim",
                        };
                        let _ = write!(s, ",\"r\":{},\"rk\":\"{}\"", esc(&self.did(rd)), kind);
                    }
                }
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let k = self.ty(st);
                let _ = write!(s, ",\"n\":{},\"self\":{}", esc(ai.name().as_str()), k);
            }
        } else if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"n\":{}", esc(n.as_str()));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let par = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(par) {
                DefKind::Variant => (tcx.parent(par), tcx.item_name(par).to_string()),
                _ => (par, tcx.item_name(par).to_string()),
            };
            self.adt(adt);
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&self.did(adt)), esc(&var));
        }
        s.push('}');
        s
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let k = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(owner, *d, args.skip_binder());
            return format!("[\"fn\",{},{}]", k, cal);
        }
        let mut def = String::from("null");
        let mut ev = None;
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if u.promoted.is_none() {
                    let ga: Vec<String> = u.args.types().map(|t| self.ty(t).to_string()).collect();
                    def = format!("[{},{},{}]", esc(&self.did(u.def)), esc(&self.path(u.def)), list(ga));
                }
                // Only constants that do not depend on generics can be evaluated here.
                let env = TypingEnv::fully_monomorphized();
                if !ty::TypeVisitableExt::has_param(&u.args)
                    && !ty::TypeVisitableExt::has_infer(&u.args)
                {
                    let args = tcx.erase_and_anonymize_regions(u.args);
                    if let Ok(v) = tcx.const_eval_resolve(
                        env,
                        mir::UnevaluatedConst { def: u.def, args, promoted: u.promoted },
                        rustc_span::DUMMY_SP,
                    ) {
                        ev = Some(v);
                    }
                }
            }
            mir::Const::Val(v, _) => ev = Some(v),
            mir::Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(si) = v.try_to_leaf() {
                        let val = self.scalar(t, si);
                        return format!("[\"c\",{},{},null]", k, val);
                    }
                    ev = Some(tcx.valtree_to_const_val(v));
                }
            }
        }
        let val = match ev {
            Some(v) => self.cval(t, v),
            None => "null".into(),
        };
        format!("[\"c\",{},{},{}]", k, val, def)
    }
    fn scalar(&self, t: Ty<'tcx>, si: ty::ScalarInt) -> String {
        let size = si.size();
        match t.kind() {
            ty::Bool => if si.to_bits(size) != 0 { "true".into() } else { "false".into() },
            ty::Int(_) => format!("[\"int\",\"{}\"]", si.to_int(size)),
            ty::Char => {
                let c = char::from_u32(si.to_bits(size) as u32).unwrap_or('?');
                format!("[\"char\",{}]", esc(&c.to_string()))
            }
            ty::Float(_) => format!("[\"float\",\"{}\"]", si.to_bits(size)),
            _ => format!("[\"int\",\"{}\"]", si.to_bits(size)),
        }
    }
    fn cval(&self, t: Ty<'tcx>, v: mir::ConstValue) -> String {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => "[\"zst\"]".into(),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => match t.kind() {
                ty::Adt(def, _) if def.is_enum() => {
                    let bits = si.to_bits(si.size());
                    for (vi, d) in def.discriminants(tcx) {
                        if d.val == bits {
                            return format!("[\"variant\",{}]", esc(def.variant(vi).name.as_str()));
                        }
                    }
                    "null".into()
                }
                _ => self.scalar(t, si),
            },
            mir::ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    self.bytes(t, b)
                } else {
                    "null".into()
                }
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // &[u8; N]
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, _) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let mir::interpret::GlobalAlloc::Memory(a) =
                                tcx.global_alloc(p.provenance.alloc_id())
                            {
                                let a = a.inner();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                return self.bytes(t, b);
                            }
                        }
                    }
                }
                "null".into()
            }
            mir::ConstValue::Indirect { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return self.bytes(t, b);
                        }
                    }
                }
                // enum constants such as Option::<T>::None or struct constants
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            if let Some(vi) = d.variant {
                                return format!("[\"variant\",{}]", esc(def.variant(vi).name.as_str()));
                            }
                        }
                    }
                }
                "null".into()
            }
        }
    }
    fn bytes(&self, t: Ty<'tcx>, b: &[u8]) -> String {
        let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
        if is_str {
            format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)))
        } else {
            let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
            format!("[\"bytes\",\"{h}\"]")
        }
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.konst(owner, c),
            #[allow(unreachable_patterns)]
            _ => "[\"?\"]".into(),
        }
    }
    fn rv(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(owner, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.op(owner, body, o)),
            Rvalue::Ref(_, bk, p) => {
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{},{}]", self.place(body, p), m, fake)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true,false]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{},false]", self.place(body, p), m.is_mut())
            }
            Rvalue::Cast(ck, o, t) => {
                let k = self.ty(*t);
                let from = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{ck:?}")),
                    self.op(owner, body, o),
                    k,
                    f
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{b:?}")),
                self.op(owner, body, &ops.0),
                self.op(owner, body, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.op(owner, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let k = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(body, p), k)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(owner, body, o)).collect();
                let (kind, names): (String, Vec<String>) = match &**k {
                    AggregateKind::Array(_) => ("[\"array\"]".into(), vec![]),
                    AggregateKind::Tuple => ("[\"tuple\"]".into(), vec![]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names = match active {
                            Some(a) => vec![v.fields[*a].name.to_string()],
                            None => v.fields.iter().map(|f| f.name.to_string()).collect(),
                        };
                        (
                            format!("[\"adt\",{},{}]", esc(&self.did(*d)), esc(v.name.as_str())),
                            names,
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        (format!("[\"closure\",{}]", esc(&self.did(*d))), vec![])
                    }
                    AggregateKind::RawPtr(..) => ("[\"rawptr\"]".into(), vec![]),
                };
                format!(
                    "[\"agg\",{},{},{}]",
                    kind,
                    list(os),
                    list(names.iter().map(|s| esc(s)))
                )
            }
            _ => "[\"?\"]".into(),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line)
    }
    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let owner = def.to_def_id();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let ps = self.place(body, p);
                        let rs = self.rv(owner, body, r);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, esc(&self.line(s.source_info.span))));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, place);
                        st.push(format!("[\"setdisc\",{},{}]", ps, variant_index.as_usize()))
                    }
                    _ => {}
                }
            }
            let term = match &data.terminator {
                None => "[\"none\"]".to_string(),
                Some(t) => {
                    let ln = esc(&self.line(t.source_info.span));
                    match &t.kind {
                        TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                        TerminatorKind::FalseEdge { real_target, .. } => {
                            format!("[\"goto\",{}]", real_target.as_usize())
                        }
                        TerminatorKind::FalseUnwind { real_target, .. } => {
                            format!("[\"goto\",{}]", real_target.as_usize())
                        }
                        TerminatorKind::SwitchInt { discr, targets } => {
                            let o = self.op(owner, body, discr);
                            let dt = discr.ty(&body.local_decls, tcx);
                            let k = self.ty(dt);
                            let ts: Vec<String> = targets
                                .iter()
                                .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                                .collect();
                            format!(
                                "[\"switch\",{},{},{},{},{}]",
                                o,
                                k,
                                list(ts),
                                targets.otherwise().as_usize(),
                                ln
                            )
                        }
                        TerminatorKind::Return => "[\"return\"]".into(),
                        TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                            "[\"resume\"]".into()
                        }
                        TerminatorKind::CoroutineDrop => "[\"codrop\"]".into(),
                        TerminatorKind::Drop { place, target, .. } => {
                            let t = place.ty(&body.local_decls, tcx).ty;
                            let k = self.ty(t);
                            format!(
                                "[\"drop\",{},{},{}]",
                                self.place(body, place),
                                target.as_usize(),
                                k
                            )
                        }
                        TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                            let f = self.op(owner, body, func);
                            let a: Vec<String> =
                                args.iter().map(|x| self.op(owner, body, &x.node)).collect();
                            let uw = match unwind {
                                mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                                _ => "null".into(),
                            };
                            format!(
                                "[\"call\",{},{},{},{},{},{}]",
                                f,
                                list(a),
                                self.place(body, destination),
                                target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                                ln,
                                uw
                            )
                        }
                        TerminatorKind::TailCall { .. } => "[\"?tailcall\"]".into(),
                        TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                            let o = self.op(owner, body, cond);
                            let m = match &**msg {
                                mir::AssertKind::BoundsCheck { .. } => "bounds",
                                mir::AssertKind::Overflow(..) => "overflow",
                                mir::AssertKind::OverflowNeg(..) => "overflow",
                                mir::AssertKind::DivisionByZero(..) => "div",
                                mir::AssertKind::RemainderByZero(..) => "div",
                                _ => "other",
                            };
                            format!(
                                "[\"assert\",{},{},{},{},{}]",
                                o,
                                expected,
                                target.as_usize(),
                                esc(m),
                                ln
                            )
                        }
                        TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                            let o = self.op(owner, body, value);
                            format!(
                                "[\"yield\",{},{},{},{}]",
                                o,
                                resume.as_usize(),
                                self.place(body, resume_arg),
                                drop.map_or("null".into(), |b| b.as_usize().to_string())
                            )
                        }
                        TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                    }
                }
            };
            blocks.push(format!("[{},{},{}]", list(st), term, if data.is_cleanup { 1 } else { 0 }));
        }
        let kind = tcx.def_kind(def);
        let mut s = format!(
            "{{\"id\":{},\"path\":{},\"kind\":{},\"argc\":{},\"span\":{}",
            esc(&self.did(owner)),
            esc(&self.path(owner)),
            esc(&format!("{kind:?}")),
            body.arg_count,
            esc(&self.line(body.span)),
        );
        if tcx.is_typeck_child(owner) {
            let par = tcx.local_parent(def).to_def_id();
            let up: Vec<String> =
                tcx.closure_captures(def).iter().map(|c| esc(&c.to_string(tcx))).collect();
            let _ = write!(s, ",\"parent\":{},\"upvars\":{}", esc(&self.did(par)), list(up));
            if tcx.is_coroutine(owner) {
                s.push_str(",\"coroutine\":true");
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if tcx.asyncness(owner).is_async() {
                s.push_str(",\"async\":true");
            }
            let pubv = if tcx.visibility(owner).is_public() { "true" } else { "false" };
            let _ = write!(s, ",\"pub\":{}", pubv);
            if tcx.effective_visibilities(()).is_reachable(def) {
                s.push_str(",\"reach\":true");
            }
            let ga: Vec<String> = tcx
                .generics_of(owner)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| esc(p.name.as_str()))
                .collect();
            let _ = write!(s, ",\"generics\":{}", list(ga));
        }
        if let Some(ai) = tcx.opt_associated_item(owner) {
            let _ = write!(s, ",\"name\":{}", esc(ai.name().as_str()));
            match ai.container {
                ty::AssocContainer::Trait => {
                    let _ = write!(s, ",\"intrait\":{}", esc(&self.did(tcx.parent(owner))));
                }
                _ => {
                    if let Some(im) = tcx.impl_of_assoc(owner) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let k = self.ty(st);
                        let _ = write!(s, ",\"self\":{}", k);
                        if let Some(tr) = tcx.impl_opt_trait_id(im) {
                            let _ = write!(s, ",\"trait\":{}", esc(&self.did(tr)));
                        }
                    }
                }
            }
        } else if let Some(n) = tcx.opt_item_name(owner) {
            let _ = write!(s, ",\"name\":{}", esc(n.as_str()));
        }
        let auto = body.span.from_expansion()
            && body.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|m| {
                tcx.is_builtin_derived(m)
            });
        if auto {
            s.push_str(",\"derived\":true");
        }
        let _ = write!(s, ",\"locals\":{},\"blocks\":{}}}", list(locals), list(blocks));
        s
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        // make sure every body was built
        for d in tcx.hir_body_owners() {
            if matches!(
                tcx.def_kind(d),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            ) {
                let _ = tcx.mir_promoted(d);
            }
        }
        let bodies = std::mem::take(&mut *BODIES.lock().unwrap());
        let mut seen = std::collections::HashSet::new();
        let mut fns = vec![];
        for (d, p) in bodies {
            if !seen.insert(d) {
                continue;
            }
            let b: &Body<'tcx> = unsafe { &*(p as *const () as *const Body<'tcx>) };
            fns.push(self.body(d, b));
        }
        // impl tables
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let k = self.ty(st);
                let tr = tcx
                    .impl_opt_trait_id(d)
                    .map(|t| esc(&self.did(t)))
                    .unwrap_or("null".into());
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| {
                        let ti = i
                            .trait_item_def_id()
                            .map(|t| esc(&self.did(t)))
                            .unwrap_or("null".into());
                        let nm = i.opt_name().map(|n| n.to_string()).unwrap_or_default();
                        format!("[{},{},{}]", esc(&nm), esc(&self.did(i.def_id)), ti)
                    })
                    .collect();
                let tystr = tcx
                    .impl_opt_trait_ref(d)
                    .map(|t| {
                        esc(&self.fix(with_no_trimmed_paths!(with_crate_prefix!(format!(
                            "{}",
                            t.instantiate_identity().skip_norm_wip()
                        )))))
                    })
                    .unwrap_or("null".into());
                impls.push(format!(
                    "{{\"id\":{},\"self\":{},\"trait\":{},\"tref\":{},\"items\":{},\"span\":{}}}",
                    esc(&self.did(d)),
                    k,
                    tr,
                    tystr,
                    list(items),
                    esc(&self.line(tcx.def_span(d)))
                ));
            }
        }
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Trait = tcx.def_kind(d) {
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| {
                        let nm = i.opt_name().map(|n| n.to_string()).unwrap_or_default();
                        format!(
                            "[{},{},{},{}]",
                            esc(&nm),
                            esc(&self.did(i.def_id)),
                            i.defaultness(tcx).has_value(),
                            i.is_fn()
                        )
                    })
                    .collect();
                traits.push(format!(
                    "{{\"id\":{},\"path\":{},\"items\":{}}}",
                    esc(&self.did(d)),
                    esc(&self.path(d)),
                    list(items)
                ));
            }
        }
        // local ADTs even if unused
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                self.adt(id.to_def_id());
            }
        }
        let adts: Vec<String> =
            self.adt_order.clone().iter().map(|d| self.adts[d].clone()).collect();
        let types: Vec<String> = self.types.iter().map(|t| esc(t)).collect();
        format!(
            "{{\"crate\":{},\"types\":{},\"tinfo\":{},\"adts\":{},\"impls\":{},\"traits\":{},\"fns\":[\n{}\n]}}\n",
            esc(&self.krate),
            list(types),
            list(self.tinfo.clone()),
            list(adts),
            list(impls),
            list(traits),
            fns.join(",\n")
        )
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").ok();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let hit = out.is_some()
        && !is_test
        && name.as_deref().is_some_and(|n| want.split(',').any(|w| w == n));
    if hit {
        let mut cb = Cb { out: out.unwrap() };
        rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver_impl::Callbacks for N {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut N);
    }
}
