// rustc_private driver: used as RUSTC_WRAPPER.  For parcom* crates it makes the metadata carry
// the MIR as built from the source (before drop elaboration, coroutine lowering and
// optimisation).  For the harness crate (name starts with "vharness") it walks the call graph
// from every root and dumps the monomorphic MIR, the type table and the crate facts as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, TypeVisitableExt, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::traits::specialization_graph::Node;
use rustc_middle::util::Providers;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::OnceLock;

type MirBuiltFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
type OptMirFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Body<'tcx>;
static ORIG_BUILT: OnceLock<MirBuiltFn> = OnceLock::new();
static ORIG_OPT: OnceLock<OptMirFn> = OnceLock::new();
thread_local! {
    static STASH: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = ORIG_BUILT.get().unwrap()(tcx, d);
    let mut b: Body<'tcx> = r.borrow().clone();
    b.user_type_annotations = Default::default();
    for bb in b.basic_blocks.as_mut() {
        for s in &mut bb.statements {
            if let StatementKind::AscribeUserType(..) | StatementKind::FakeRead(..) | StatementKind::PlaceMention(..) = s.kind {
                s.kind = StatementKind::Nop;
            }
        }
    }
    for l in b.local_decls.iter_mut() {
        l.user_ty = None;
    }
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    STASH.with(|s| s.borrow_mut().insert(d, b));
    r
}

fn my_optimized_mir<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx Body<'tcx> {
    let k = tcx.def_kind(d);
    if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        let _ = tcx.mir_built(d);
        let b = STASH.with(|s| s.borrow().get(&d).cloned());
        if let Some(b) = b {
            let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
            return tcx.arena.alloc(b);
        }
    }
    ORIG_OPT.get().unwrap()(tcx, d)
}

struct Cb {
    dump: bool,
    name: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p: &mut Providers| {
            let _ = ORIG_BUILT.set(p.queries.mir_built);
            let _ = ORIG_OPT.set(p.queries.optimized_mir);
            p.queries.mir_built = my_mir_built;
            p.queries.optimized_mir = my_optimized_mir;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.dump {
            dump(tcx);
        } else {
            crate_facts(tcx, &self.name);
        }
        Compilation::Continue
    }
}

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyq: VecDeque<Ty<'tcx>>,
    tyout: BTreeMap<usize, String>,
    insts: HashMap<(Instance<'tcx>, Option<mir::Promoted>), usize>,
    instq: VecDeque<(Instance<'tcx>, Option<mir::Promoted>)>,
    stop: Vec<String>,
    generic: bool,
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self
            .tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or_else(|_| self.tcx.erase_and_anonymize_regions(t));
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        self.inst_part(i, None)
    }
    /// a function, or one of the constants of its body
    fn inst_part(&mut self, i: Instance<'tcx>, p: Option<mir::Promoted>) -> usize {
        let i = (i, p);
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.instq.push_back(i);
        k
    }
    /// the number a bit pattern of type `t` stands for
    fn sx(&self, v: u128, t: Ty<'tcx>) -> i128 {
        match t.kind() {
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64) as u32;
                ((v << (128 - w)) as i128) >> (128 - w)
            }
            _ => v as i128,
        }
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.tyq.pop_front() {
            let i = self.tys[&t];
            let s = self.ty_json(t);
            self.tyout.insert(i, s);
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn drop_impl(&mut self, t: Ty<'tcx>) -> String {
        if let ty::Adt(ad, args) = t.kind() {
            if let Some(d) = self.tcx.adt_destructor(ad.did()) {
                if let Ok(Some(ins)) = Instance::try_resolve(self.tcx, self.env, d.did, args) {
                    // d.did is the Drop::drop impl method
                    return self.inst(ins).to_string();
                }
                return "-1".into();
            }
        }
        "null".into()
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"s\":{}", js(&self.tystr(t)));
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"n\":\"{}\"", i.name_str());
            }
            ty::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"n\":\"{}\"", i.name_str());
            }
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e);
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":[{}]", v.join(","));
            }
            ty::Adt(ad, args) => {
                let kind = if ad.is_union() { "union" } else if ad.is_enum() { "enum" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"ak\":\"{}\",\"p\":{}", kind, js(&self.path(ad.did())));
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"a\":[{}]", targs.join(","));
                let mut vs = vec![];
                let discrs: HashMap<rustc_abi::VariantIdx, i128> = if ad.is_enum() {
                    ad.discriminants(tcx).map(|(i, d)| (i, self.sx(d.val, d.ty))).collect()
                } else {
                    HashMap::new()
                };
                for (vi, v) in ad.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or_else(|_| ft.skip_norm_wip());
                        let k = self.ty(ft);
                        fs.push(format!("[{},{}]", js(f.name.as_str()), k));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        js(v.name.as_str()),
                        discrs.get(&vi).copied().unwrap_or(0),
                        fs.join(",")
                    ));
                }
                let _ = write!(o, ",\"v\":[{}]", vs.join(","));
                let d = self.drop_impl(t);
                let _ = write!(o, ",\"drop\":{}", d);
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"p\":{},\"f\":[{}]", js(&self.path(*d)), ups.join(","));
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let b = self.inst(Instance::new_raw(*d, args));
                let _ = write!(o, ",\"k\":\"coroutine\",\"p\":{},\"f\":[{}],\"b\":{}", js(&self.path(*d)), ups.join(","), b);
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder());
                let _ = write!(o, ",\"k\":\"fndef\",\"p\":{},\"c\":{}", js(&self.path(*d)), c);
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        let open = t.has_escaping_bound_vars() || (self.generic && (t.has_param() || t.has_opaque_types()));
        let mv = !open && !tcx.type_is_copy_modulo_regions(self.env, t);
        let nd = !open && t.needs_drop(tcx, self.env);
        let lay = if open { None } else { tcx.layout_of(self.env.as_query_input(t)).ok() };
        let (sz, al) = match lay {
            Some(l) if l.is_sized() => (l.size.bytes().to_string(), l.align.abi.bytes().to_string()),
            _ => ("null".to_string(), "null".to_string()),
        };
        let _ = write!(o, ",\"mv\":{},\"nd\":{},\"sz\":{},\"al\":{}}}", mv, nd, sz, al);
        o
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = format!("{{\"p\":{},\"full\":{},\"a\":[{}]", js(&p), js(&full), targs.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", js(&self.path(tr)));
        }
        let res = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(o, ",\"ctor\":true");
            // which adt / variant
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = sig.output().skip_binder();
            let t = self.ty(out);
            let mut vi = 0usize;
            if let ty::Adt(ad, _) = out.kind() {
                vi = ad.variant_index_with_ctor_id(d).as_usize();
            }
            let _ = write!(o, ",\"cty\":{},\"cvi\":{}", t, vi);
            Ok(None)
        } else {
            Instance::try_resolve(tcx, self.env, d, args)
        };
        let res = match res {
            Ok(Some(i)) => Ok(Some(self.plain(d, args, i))),
            r => r,
        };
        match res {
            Ok(Some(i)) => {
                let rp = self.path(i.def_id());
                let _ = write!(o, ",\"rp\":{}", js(&rp));
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
                    InstanceKind::Shim(_) => "shim",
                };
                let _ = write!(o, ",\"rk\":\"{}\"", kind);
                let ra: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"ra\":[{}]", ra.join(","));
                if matches!(kind, "item" | "closureonce" | "fnptrshim") {
                    let k = self.inst(i);
                    let _ = write!(o, ",\"i\":{}", k);
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }
    /// The standard library overrides provided iterator methods, and specialises adaptors, only to be faster: the
    /// plain definition is what a call means.
    fn plain(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        let Some(tr) = tcx.trait_of_assoc(d) else { return i };
        if !matches!(i.def, InstanceKind::Item(_)) || i.def_id() == d || !matches!(tcx.crate_name(i.def_id().krate).as_str(), "core" | "alloc" | "std") {
            return i;
        }
        let name = tcx.item_name(d);
        let trp = self.path(tr);
        let iter = matches!(trp.as_str(), "core::iter::traits::iterator::Iterator" | "core::iter::traits::double_ended::DoubleEndedIterator");
        if iter && tcx.defaultness(d).has_value() && !matches!(name.as_str(), "size_hint" | "__iterator_get_unchecked") {
            return Instance::new_raw(d, args);
        }
        if trp == "core::iter::adapters::zip::ZipImpl" {
            if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                if let Ok(anc) = tcx.trait_def(tr).ancestors(tcx, im) {
                    let mut base = i;
                    for n in anc {
                        let Node::Impl(b) = n else { continue };
                        let Some(it) = n.item(tcx, d) else { continue };
                        // impl<A, B> ZipImpl<A, B> for Zip<A, B>
                        let types: Vec<_> = args.iter().skip(1).take(tcx.generics_of(b).count()).collect();
                        let rest = args.iter().skip(tcx.generics_of(tr).count());
                        if types.len() == tcx.generics_of(b).count() && b != im {
                            let a = tcx.mk_args_from_iter(types.into_iter().chain(rest));
                            base = Instance::new_raw(it.def_id, a);
                        }
                    }
                    return base;
                }
            }
        }
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let k = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), k)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "\"o\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    /// the body that computes a constant the analysis has to look into
    fn part(&mut self, c: &mir::Const<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let mir::Const::Unevaluated(u, t) = c else { return None };
        if self.generic {
            return None;
        }
        if let Some(p) = u.promoted {
            if tcx.promoted_mir(u.def).get(p).is_none() {
                eprintln!("NOPROM {:?} {:?}", u.def, p);
                return None;
            }
            return Some(self.inst_part(Instance::new_raw(u.def, u.args), Some(p)));
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            return None;
        }
        let i = Instance::try_resolve(tcx, self.env, u.def, u.args).ok()??;
        let d = i.def_id();
        if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
            return None;
        }
        Some(self.inst_part(i, None))
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, sp: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tk = self.ty(t);
        let mut o = format!("[\"k\",{}", tk);
        match t.kind() {
            ty::FnDef(d, args) => {
                let cal = self.callee(*d, args.skip_binder());
                let _ = write!(o, ",\"fn\",{}]", cal);
                return o;
            }
            _ => {}
        }
        let prom = matches!(c, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        if prom {
            return match self.part(c) {
                Some(k) => format!("{},\"part\",{}]", o, k),
                None => format!("{},\"err\",{}]", o, js(&format!("{}", c))),
            };
        }
        let val = c.eval(tcx, self.env, sp);
        if !matches!(val, Ok(ConstValue::ZeroSized) | Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(_)))) {
            if let Some(k) = self.part(c) {
                return format!("{},\"part\",{}]", o, k);
            }
        }
        match val {
            Ok(ConstValue::ZeroSized) => o.push_str(",\"zst\",null]"),
            Ok(v @ ConstValue::Scalar(_)) => {
                if let Some(si) = v.try_to_scalar_int() {
                    match t.kind() {
                        ty::Int(_) => {
                            let sz = si.size();
                            let _ = write!(o, ",\"int\",{}]", sz.sign_extend(si.to_bits(sz)));
                        }
                        _ => {
                            let _ = write!(o, ",\"int\",{}]", si.to_bits(si.size()));
                        }
                    }
                } else {
                    // pointer: try to read a byte-slice behind a &[u8; N]
                    let mut done = false;
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let (ty::Array(e, n), ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) = (inner.kind(), v) {
                            if *e == tcx.types.u8 {
                                if let (Some(n), rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                                    (n.try_to_target_usize(tcx), tcx.global_alloc(p.provenance.alloc_id()))
                                {
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n as usize);
                                    let _ = write!(o, ",\"bytes\",{}]", arr(b.iter().map(|x| x.to_string())));
                                    done = true;
                                }
                            }
                        }
                    }
                    if !done {
                        let _ = write!(o, ",\"ptr\",{}]", js(&format!("{}", c)));
                    }
                }
            }
            Ok(v @ ConstValue::Slice { .. }) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let _ = write!(o, ",\"str\",{}]", js(&String::from_utf8_lossy(b)));
                } else {
                    let _ = write!(o, ",\"other\",{}]", js(&format!("{}", c)));
                }
            }
            Ok(ConstValue::Indirect { .. }) => {
                let _ = write!(o, ",\"ind\",{}]", js(&format!("{}", c)));
            }
            Err(_) => {
                let _ = write!(o, ",\"err\",{}]", js(&format!("{}", c)));
            }
        }
        o
    }
    fn op(&mut self, op: &Operand<'tcx>, sp: rustc_span::Span) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_, sp),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }
    fn rv(&mut self, rv: &Rvalue<'tcx>, sp: rustc_span::Span) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, sp)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.op(o, sp),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p),
                match k {
                    BorrowKind::Mut { .. } => 1,
                    BorrowKind::Fake(_) => 2,
                    _ => 0,
                }
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},3]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let tk = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o, sp), tk)
            }
            Rvalue::BinaryOp(b, x) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&x.0, sp), self.op(&x.1, sp)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x, sp)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f = arr(fs.iter().map(|x| self.op(x, sp)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", f),
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,0,{}]", f),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let tk = self.ty(t);
                        match uf {
                            Some(u) => format!("[\"agg\",\"union\",{},{},{}]", tk, u.as_usize(), f),
                            None => format!("[\"agg\",\"adt\",{},{},{}]", tk, vi.as_usize(), f),
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let tk = self.ty(t);
                        format!("[\"agg\",\"closure\",{},0,{}]", tk, f)
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let tk = self.ty(t);
                        format!("[\"agg\",\"coroutine\",{},0,{}]", tk, f)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let tk = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{},0,{}]", tk, f)
                    }
                    _ => format!("[\"agg\",\"other\",null,0,{}]", f),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", rv))),
        }
    }
    fn body_json(&mut self, ins: Instance<'tcx>, part: Option<mir::Promoted>) -> Option<String> {
        let tcx = self.tcx;
        let d = ins.def_id();
        let p = self.path(d);
        let cr = tcx.crate_name(d.krate).to_string();
        let ours = cr.starts_with("parcom") || cr.starts_with("vharness");
        let mut head = format!("{{\"p\":{},\"crate\":{}", js(&p), js(&cr));
        let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, ins.args));
        let _ = write!(head, ",\"full\":{}", js(&full));
        let targs: Vec<String> = ins.args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(head, ",\"a\":[{}]", targs.join(","));
        if !ours && !p.starts_with("core::result::") && !p.starts_with("core::option::") && self.stop.iter().any(|s| p.starts_with(s.as_str()) || full.contains(s.as_str())) {
            return Some(format!("{},\"stop\":true}}", head));
        }
        let body: &Body<'tcx> = match ins.def {
            InstanceKind::Item(d) if part.is_some() => &tcx.promoted_mir(d)[part.unwrap()],
            InstanceKind::Item(d) if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) => tcx.mir_for_ctfe(d),
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    return Some(format!("{},\"nomir\":true}}", head));
                }
                tcx.optimized_mir(d)
            }
            InstanceKind::Shim(s) => tcx.mir_shims(s),
            _ => return Some(format!("{},\"nomir\":true}}", head)),
        };
        let body: Body<'tcx> = ins.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let _ = write!(head, ",\"argc\":{}", body.arg_count);
        let _ = write!(head, ",\"span\":{}", js(&self.span(tcx.def_span(d))));
        if let Some(s) = body.spread_arg {
            let _ = write!(head, ",\"spread\":{}", s.as_usize());
        }
        let kind = if matches!(ins.def, InstanceKind::Shim(_)) {
            "shim"
        } else {
            match tcx.def_kind(d) {
                DefKind::Closure if tcx.is_coroutine(d) => "coroutine",
                DefKind::Closure => "closure",
                _ => "fn",
            }
        };
        let _ = write!(head, ",\"kind\":\"{}\"", kind);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(pl) = v.value {
                if pl.projection.is_empty() {
                    names.insert(pl.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals = arr(
            body.local_decls
                .iter_enumerated()
                .map(|(l, dcl)| {
                    let t = self.ty(dcl.ty);
                    match names.get(&l.as_usize()) {
                        Some(n) => format!("[{},{}]", t, js(n)),
                        None => format!("[{},null]", t),
                    }
                })
                .collect::<Vec<_>>(),
        );
        let _ = write!(head, ",\"locals\":{}", locals);
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = s.source_info.span;
                let ln = self.span(sp);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0);
                        let rv = self.rv(&b.1, sp);
                        ss.push(format!("[\"=\",{},{},{}]", pl, rv, js(&ln)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"sl\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => ss.push(format!("[\"assume\",{}]", self.op(o, sp))),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => ss.push(format!(
                            "[\"cno\",{},{},{}]",
                            self.op(&c.src, sp),
                            self.op(&c.dst, sp),
                            self.op(&c.count, sp)
                        )),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            let ln = js(&self.span(sp));
            let ts = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, sp);
                    let vs = arr(targets.iter().map(|(v, b)| format!("[{},{}]", self.sx(v, discr.ty(&body.local_decls, tcx)), b.as_usize())));
                    let dty = discr.ty(&body.local_decls, tcx);
                    let k = self.ty(dty);
                    format!("[\"switch\",{},{},{},{},{}]", o, vs, targets.otherwise().as_usize(), k, ln)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", ln),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let k = self.ty(t);
                    let uw = match unwind { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target.as_usize(), k, ln, uw)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, sp);
                    let a = arr(args.iter().map(|x| self.op(&x.node, sp)).collect::<Vec<_>>());
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let k = self.ty(dty);
                    let uw = match unwind { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f,
                        a,
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        k,
                        ln,
                        uw
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"other\",\"tailcall\"]".to_string(),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.op(cond, sp);
                    let m: &str = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(op, ..) => match op {
                            BinOp::Add => "overflow_add",
                            BinOp::Sub => "overflow_sub",
                            BinOp::Mul => "overflow_mul",
                            _ => "overflow",
                        },
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0",
                        AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) => "resumed",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},\"{}\",{}]", c, expected, target.as_usize(), m, ln)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{},{}]", self.op(value, sp), resume.as_usize(), self.place(resume_arg), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                k => format!("[\"other\",{}]", js(&format!("{:?}", k))),
            };
            bbs.push(format!("[{},{},{}]", arr(ss), ts, bb.is_cleanup));
        }
        let _ = write!(head, ",\"bb\":{}}}", arr(bbs));
        Some(head)
    }
}

include!("facts.rs");

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("PCX_OUT").expect("PCX_OUT");
    let stop: Vec<String> = std::env::var("PCX_STOP").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let env = TypingEnv::fully_monomorphized();
    let mut d = D {
        tcx,
        env,
        tys: HashMap::new(),
        tyq: VecDeque::new(),
        tyout: BTreeMap::new(),
        insts: HashMap::new(),
        instq: VecDeque::new(),
        stop,
        generic: false,
    };
    let mut roots = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn) {
            continue;
        }
        if tcx.generics_of(did).requires_monomorphization(tcx) {
            continue;
        }
        // every public monomorphic function of the harness outside the opaque environment is a root
        if !d.path(did).starts_with("u::") && tcx.visibility(did).is_public() {
            let ins = Instance::mono(tcx, did);
            let k = d.inst(ins);
            roots.push((d.path(did), k));
        }
    }
    let mut fns = vec![];
    loop {
        if let Some(i) = d.instq.pop_front() {
            let k = d.insts[&i];
            if let Some(s) = d.body_json(i.0, i.1) {
                fns.push(format!("\"{}\":{}", k, s));
            }
            continue;
        }
        d.drain_types();
        if d.instq.is_empty() && d.tyq.is_empty() {
            break;
        }
    }
    let facts = facts_json(&mut d);
    d.drain_types();
    let tys = arr(d.tyout.values().cloned());
    let rs = arr(roots.iter().map(|(n, k)| format!("[{},{}]", js(n), k)));
    let s = format!("{{\"roots\":{},\"fns\":{{{}}},\"types\":{},\"facts\":{}}}", rs, fns.join(",\n"), tys, facts);
    std::fs::write(&out, s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of rustc
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let ours = name.starts_with("parcom") || name.starts_with("vharness");
    let is_build_script = name == "build_script_build";
    if !ours || is_build_script {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    let mut cb = Cb { dump: name.starts_with("vharness"), name };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
