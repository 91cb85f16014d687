// Facts about one library crate as written (generic, not instantiated): every body with its MIR,
// the types with their fields and who can see them, the impls, the statics.
fn vis_str(tcx: TyCtxt<'_>, d: DefId) -> &'static str {
    if tcx.visibility(d).is_public() { "pub" } else { "priv" }
}

fn subst_types<'tcx>(tcx: TyCtxt<'tcx>, d: &mut D<'tcx>, im: DefId, never: &[ty::Ty<'tcx>], n: u64) -> usize {
    // the self type of an impl with its marked parameters replaced by a type without values
    let args = ty::GenericArgs::for_item(tcx, im, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => {
            if never.iter().any(|t| matches!(t.kind(), ty::Param(q) if q.index == p.index)) {
                tcx.types.never.into()
            } else {
                tcx.types.unit.into()
            }
        }
        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, n).into(),
    });
    let t = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
    d.ty(t)
}

fn crate_facts(tcx: TyCtxt<'_>, name: &str) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let dir = match std::env::var("PCX_FACTS") {
        Ok(d) => d,
        Err(_) => return,
    };
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        tyq: VecDeque::new(),
        tyout: BTreeMap::new(),
        insts: HashMap::new(),
        instq: VecDeque::new(),
        stop: vec![],
        generic: true,
    };
    let eff = tcx.effective_visibilities(());
    let mut fns = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let mut top = did;
        while matches!(tcx.def_kind(top), DefKind::Closure) {
            top = tcx.parent(top);
        }
        d.env = TypingEnv::post_analysis(tcx, did);
        let mut o = format!("{{\"p\":{},\"top\":{}", js(&d.path(did)), js(&d.path(top)));
        if matches!(tcx.def_kind(top), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(top).instantiate_identity().skip_norm_wip());
            let reach = top.as_local().map(|l| eff.is_reachable(l)).unwrap_or(false);
            let _ = write!(o, ",\"unsafe\":{},\"reach\":{},\"vis\":\"{}\"", sig.safety().is_unsafe(), reach, vis_str(tcx, top));
            let par = tcx.parent(top);
            if let DefKind::Impl { .. } = tcx.def_kind(par) {
                if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", js(&d.path(tr.def_id)));
                }
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                let k = d.ty(st);
                let _ = write!(o, ",\"self\":{}", k);
            }
            let ins: Vec<String> = sig.inputs().iter().map(|t| d.ty(*t).to_string()).collect();
            let outp = d.ty(sig.output());
            let _ = write!(o, ",\"in\":[{}],\"out\":{}", ins.join(","), outp);
            d.drain_types();
        }
        let mut ph = vec![];
        for bb in tcx.optimized_mir(did).basic_blocks.iter() {
            for e in bb.terminator().source_info.span.macro_backtrace() {
                if let Some(m) = e.macro_def_id {
                    let n = d.path(m);
                    if n.starts_with("core::") || n.starts_with("std::") || n.starts_with("alloc::") {
                        if n.ends_with("::todo") || n.ends_with("::unimplemented") {
                            ph.push(js(&d.span(e.call_site)));
                        }
                    }
                }
            }
        }
        ph.sort();
        ph.dedup();
        let _ = write!(o, ",\"placeholders\":{}", arr(ph));
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let b = d.body_json(Instance::new_raw(did, args), None).unwrap_or("null".into());
        d.drain_types();
        let _ = write!(o, ",\"span\":{},\"body\":{}}}", js(&d.span(tcx.def_span(did))), b);
        fns.push(o);
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut statics = vec![];
    let mut traits = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Impl { .. } | DefKind::Static { .. } | DefKind::Trait) {
            continue;
        }
        d.env = TypingEnv::post_analysis(tcx, did);
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let k = d.ty(t);
                let ad = tcx.adt_def(did);
                let vs = arr(ad.variants().iter().map(|v| {
                    let fs = arr(v.fields.iter().map(|f| {
                        let fk = d.ty(f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, did)).skip_norm_wip());
                        format!("[{},\"{}\",{}]", js(f.name.as_str()), vis_str(tcx, f.did), fk)
                    }).collect::<Vec<_>>());
                    format!("[{},{}]", js(v.name.as_str()), fs)
                }).collect::<Vec<_>>());
                let fu = arr(ad.all_fields().map(|f| {
                    f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, did)).skip_norm_wip().is_unpin(tcx, d.env).to_string()
                }).collect::<Vec<_>>());
                adts.push(format!(
                    "{{\"p\":{},\"t\":{},\"reach\":{},\"span\":{},\"v\":{},\"unpin\":{},\"fu\":{}}}",
                    js(&d.path(did)), k, eff.is_reachable(ld), js(&d.span(tcx.def_span(did))), vs, t.is_unpin(tcx, d.env), fu
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let k = d.ty(st);
                let mut o = format!("{{\"self\":{},\"span\":{}", k, js(&d.span(tcx.def_span(did))));
                let mut trd = None;
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    trd = Some(tr.def_id);
                    let targs: Vec<String> = tr.args.types().map(|t| d.ty(t).to_string()).collect();
                    let _ = write!(o, ",\"trait\":{},\"targs\":[{}]", js(&d.path(tr.def_id)), targs.join(","));
                }
                let mut marked = vec![];
                let mut preds = vec![];
                for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx) {
                    let c = c.skip_norm_wip();
                    if let Some(tp) = c.as_trait_clause() {
                        let tp = tp.skip_binder();
                        let sk = d.ty(tp.self_ty());
                        preds.push(format!("[{},{}]", sk, js(&d.path(tp.def_id()))));
                        if Some(tp.def_id()) == trd {
                            marked.push(tp.self_ty());
                        }
                    }
                }
                let _ = write!(o, ",\"preds\":{}", arr(preds));
                if trd.map(|t| d.path(t).ends_with("ShouldNever")).unwrap_or(false) {
                    d.drain_types();
                    let old = d.env;
                    d.env = TypingEnv::fully_monomorphized();
                    let subs: Vec<String> = (0..3).map(|n| subst_types(tcx, &mut d, did, &marked, n).to_string()).collect();
                    d.drain_types();
                    d.env = old;
                    let _ = write!(o, ",\"subst\":[{}]", subs.join(","));
                }
                if let Some(tr) = trd {
                    let n = d.path(tr);
                    if n == "core::marker::Send" || n == "core::marker::Sync" {
                        // which type parameters are known to be safe to send and to share
                        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(d.env);
                        let mut ps = vec![];
                        for a in ty::GenericArgs::identity_for_item(tcx, did).types() {
                            let has = |w: &str| tcx.get_diagnostic_item(rustc_span::Symbol::intern(w))
                                .map(|t| infcx.type_implements_trait(t, [a], penv).must_apply_modulo_regions()).unwrap_or(false);
                            let x = d.ty(a);
                            ps.push(format!("[{},{},{}]", x, has("Send"), has("Sync")));
                        }
                        let neg = tcx.impl_polarity(did) == ty::ImplPolarity::Negative;
                        let _ = write!(o, ",\"claims\":{},\"neg\":{}", arr(ps), neg);
                    }
                }
                o.push('}');
                impls.push(o);
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let k = d.ty(t);
                let fz = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                statics.push(format!(
                    "{{\"p\":{},\"t\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"span\":{}}}",
                    js(&d.path(did)), k, mutability.is_mut(), fz, tcx.is_thread_local_static(did), js(&d.span(tcx.def_span(did)))
                ));
            }
            DefKind::Trait => {
                traits.push(format!("[{},{}]", js(&d.path(did)), tcx.trait_def(did).safety.is_unsafe()));
            }
            _ => {}
        }
        d.drain_types();
    }
    d.drain_types();
    let tys = arr(d.tyout.values().cloned());
    let s = format!(
        "{{\"crate\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"statics\":{},\"traits\":{},\"types\":{}}}",
        js(name), arr(fns), arr(adts), arr(impls), arr(statics), arr(traits), tys
    );
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, name), s).unwrap();
}

/// for every future of the library occurring in the harness program: may it be sent between threads
fn facts_json<'tcx>(d: &mut D<'tcx>) -> String {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let tcx = d.tcx;
    let send = match tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")) {
        Some(s) => s,
        None => return "{}".into(),
    };
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(d.env);
    let ok = |t: Ty<'tcx>| infcx.type_implements_trait(send, [t], penv).must_apply_modulo_regions();
    let mut out = vec![];
    let all: Vec<(Ty<'tcx>, usize)> = d.tys.iter().map(|(t, k)| (*t, *k)).collect();
    for (t, k) in all {
        let def = match t.kind() {
            ty::Coroutine(c, _) => *c,
            ty::Adt(a, _) => a.did(),
            _ => continue,
        };
        let cr = tcx.crate_name(def.krate).to_string();
        if !cr.starts_with("parcom") && !cr.starts_with("vharness") {
            continue;
        }
        let fut = t.is_coroutine() || tcx.lang_items().future_trait().map(|f| infcx.type_implements_trait(f, [t], penv).must_apply_modulo_regions()).unwrap_or(false);
        if !fut {
            continue;
        }
        let mut bad = vec![];
        if !ok(t) {
            if let ty::Coroutine(c, args) = t.kind() {
                for u in args.as_coroutine().upvar_tys().iter() {
                    if !ok(u) {
                        bad.push(js(&format!("captured {}", d.tystr(u))));
                    }
                }
                if let Some(l) = tcx.mir_coroutine_witnesses(*c) {
                    for f in l.field_tys.iter() {
                        if f.ignore_for_traits {
                            continue;
                        }
                        let ft = ty::EarlyBinder::bind(tcx, f.ty).instantiate(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(d.env, ft).unwrap_or_else(|_| ft.skip_norm_wip());
                        if !ok(ft) {
                            bad.push(js(&format!("{} held across an await at {}", d.tystr(ft), d.span(f.source_info.span))));
                        }
                    }
                }
            }
            if let ty::Adt(a, args) = t.kind() {
                for f in a.all_fields() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(d.env, ft).unwrap_or_else(|_| ft.skip_norm_wip());
                    if !ok(ft) {
                        bad.push(js(&format!("field {}: {}", f.name, d.tystr(ft))));
                    }
                }
            }
        }
        out.push(format!("[{},{},{},{}]", k, ok(t), js(&d.path(def)), arr(bad)));
    }
    out.sort();
    let mut th = vec![];
    if let Some(sync) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Sync")) {
        let has = |t: Ty<'tcx>, tr: DefId| infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions();
        for (t, _) in d.tys.iter() {
            let ty::Adt(a, args) = t.kind() else { continue };
            let cr = tcx.crate_name(a.did().krate).to_string();
            if !cr.starts_with("parcom") || t.has_param() {
                continue;
            }
            let mut bad = vec![];
            for (n, tr) in [("Send", send), ("Sync", sync)] {
                if has(*t, tr) {
                    continue;
                }
                let mut why = String::new();
                for f in a.all_fields() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(d.env, ft).unwrap_or_else(|_| ft.skip_norm_wip());
                    if !has(ft, tr) {
                        let _ = write!(why, " field {}: {}", f.name, d.tystr(ft));
                    }
                }
                bad.push(format!("[\"{}\",{}]", n, js(&why)));
            }
            th.push(format!("[{},{},{},{}]", js(&d.path(a.did())), js(&d.tystr(*t)), js(&d.span(tcx.def_span(a.did()))), arr(bad)));
        }
    }
    th.sort();
    format!("{{\"send\":{},\"threads\":{}}}", arr(out), arr(th))
}
