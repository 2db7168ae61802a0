use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sub {
    Fn,
    Promoted(u32),
}

type Key<'tcx> = (DefId, GenericArgsRef<'tcx>, Sub, DefId /* root whose param env applies */);

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, Body<'tcx>>,
    promoted: HashMap<LocalDefId, Vec<Body<'tcx>>>,
    keys: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<Key<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<(String, J)>,
    env: TypingEnv<'tcx>,
    root: DefId,
}

const STD_OK: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::cmp::", "core::convert::",
    "core::ops::try_trait::", "core::ops::control_flow::", "core::iter::traits::iterator::",
    "std::option::", "std::result::", "std::bool::", "std::cmp::", "std::convert::", "std::ops::",
    "core::tuple::", "core::ops::function::",
];

// --- saving bodies before later passes steal them -------------------------------------------
use rustc_data_structures::steal::Steal;
use rustc_index::IndexVec;
use std::cell::RefCell;
use std::sync::OnceLock;

type DropsFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
type PromFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx IndexVec<Promoted, Body<'tcx>>;
static DROPS: OnceLock<DropsFn> = OnceLock::new();
static PROM: OnceLock<PromFn> = OnceLock::new();
thread_local! {
    static SAVED: RefCell<HashMap<LocalDefId, (Body<'static>, Vec<Body<'static>>)>> = RefCell::new(HashMap::new());
}

fn save<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) {
    if tcx.is_constructor(def.to_def_id()) || tcx.is_synthetic_mir(def) {
        return;
    }
    if SAVED.with(|s| s.borrow().contains_key(&def)) {
        return;
    }
    let (b, p) = tcx.mir_promoted(def);
    if b.is_stolen() || p.is_stolen() {
        return;
    }
    let b: Body<'tcx> = b.borrow().clone();
    let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
    // SAFETY: read back only while the same TyCtxt is alive (flowistry uses the same technique)
    let v: (Body<'static>, Vec<Body<'static>>) = unsafe { std::mem::transmute((b, p)) };
    SAVED.with(|s| s.borrow_mut().insert(def, v));
}

fn my_drops<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    save(tcx, def);
    DROPS.get().unwrap()(tcx, def)
}
fn my_prom<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx IndexVec<Promoted, Body<'tcx>> {
    save(tcx, def);
    PROM.get().unwrap()(tcx, def)
}

pub fn install(providers: &mut rustc_middle::util::Providers) {
    let _ = DROPS.set(providers.queries.mir_drops_elaborated_and_const_checked);
    let _ = PROM.set(providers.queries.promoted_mir);
    providers.queries.mir_drops_elaborated_and_const_checked = my_drops;
    providers.queries.promoted_mir = my_prom;
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let mut cx = Cx {
        tcx,
        bodies: HashMap::new(),
        promoted: HashMap::new(),
        keys: HashMap::new(),
        queue: VecDeque::new(),
        types: HashMap::new(),
        type_out: vec![],
        adts: HashMap::new(),
        adt_out: vec![],
        env: TypingEnv::fully_monomorphized(),
        root: DefId::local(rustc_hir::def_id::CRATE_DEF_INDEX),
    };
    with_no_trimmed_paths!(cx.run())
}

impl<'tcx> Cx<'tcx> {
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut stolen = vec![];
        for &o in &owners {
            let kind = tcx.def_kind(o);
            if matches!(kind, DefKind::AnonConst | DefKind::GlobalAsm) {
                continue;
            }
            save(tcx, o);
            match SAVED.with(|s| s.borrow_mut().remove(&o)) {
                None => stolen.push(s(tcx.def_path_str(o))),
                Some(v) => {
                    // SAFETY: see `save`
                    let v: (Body<'tcx>, Vec<Body<'tcx>>) = unsafe { std::mem::transmute(v) };
                    self.bodies.insert(o, v.0);
                    self.promoted.insert(o, v.1);
                }
            }
        }
        let mut roots = vec![];
        for &o in &owners {
            if !self.bodies.contains_key(&o) {
                continue;
            }
            let kind = tcx.def_kind(o);
            let did = o.to_def_id();
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = GenericArgs::identity_for_item(tcx, did);
                    self.set_root(did);
                    let k = self.key(did, args, Sub::Fn);
                    roots.push((o, k));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let args = GenericArgs::identity_for_item(tcx, did);
                    self.set_root(did);
                    self.key(did, args, Sub::Fn);
                }
                _ => {}
            }
        }
        let mut fns = vec![];
        while let Some(k) = self.queue.pop_front() {
            let id = self.keys[&k];
            let j = self.body(k);
            fns.push((id.to_string(), j));
        }
        let items = self.items(&roots);
        // signature info interns types as well
        while let Some(k) = self.queue.pop_front() {
            let id = self.keys[&k];
            let j = self.body(k);
            fns.push((id.to_string(), j));
        }
        let statics = self.statics();
        let unsafes = self.unsafes();
        let shared = self.shared();
        // visit all local adts
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let did = id.to_def_id();
                self.adt(tcx.adt_def(did));
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("stolen", J::A(stolen)),
            ("fns", J::M(fns)),
            ("types", J::A(std::mem::take(&mut self.type_out))),
            ("adts", J::M(std::mem::take(&mut self.adt_out))),
            ("items", items),
            ("statics", statics),
            ("unsafe", unsafes),
            ("shared", shared),
        ])
    }

    /// every static item: can its value change, and is there one per thread
    fn statics(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(id) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, did);
                out.push(J::O(vec![
                    ("path", s(self.path(did))),
                    ("t", s(t.to_string())),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("tls", J::B(tcx.is_thread_local_static(did))),
                    ("span", self.span(tcx.def_span(did))),
                ]));
            }
        }
        J::A(out)
    }

    /// unsafe code somebody wrote: blocks, functions, impls, foreign items
    fn unsafes(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = Unsafes { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let found = std::mem::take(&mut v.found);
        let mut out = vec![];
        for (what, owner, sp) in found {
            out.push(J::A(vec![s(what), s(self.path(owner.to_def_id())), self.span(sp)]));
        }
        J::A(out)
    }

    /// which types and results may be shared with and moved to other threads
    fn shared(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let mut out = vec![];
        let (Some(send), Some(sync)) = (send, sync) else { return J::Null };
        let has = |tr: DefId, t: Ty<'tcx>, env: ty::ParamEnv<'tcx>| {
            use rustc_infer::infer::TyCtxtInferExt;
            use rustc_trait_selection::infer::InferCtxtExt;
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
            infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
        };
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union if ev.is_reachable(id) => {
                    // what the type adds to its parameters
                    let args = GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => tcx.types.unit.into(),
                        ty::GenericParamDefKind::Const { .. } => tcx.mk_param_from_def(p),
                    });
                    let t = tcx.type_of(did).instantiate(tcx, args).skip_norm_wip();
                    let env = ty::ParamEnv::empty();
                    out.push(J::O(vec![
                        ("kind", s("type")),
                        ("path", s(self.path(did))),
                        ("send", J::B(has(send, t, env))),
                        ("sync", J::B(has(sync, t, env))),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Fn | DefKind::AssocFn if ev.is_reachable(id) || tcx.asyncness(did).is_async() => {
                    self.set_root(did);
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let o = tcx.erase_and_anonymize_regions(sig.output());
                    let o = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(o)).unwrap_or(o);
                    out.push(J::O(vec![
                        ("kind", s("fn")),
                        ("path", s(self.path(did))),
                        ("name", s(tcx.item_name(did).as_str())),
                        ("async", J::B(tcx.asyncness(did).is_async())),
                        ("reach", J::B(ev.is_reachable(id))),
                        ("out", n(self.ty(o))),
                        ("send", J::B(has(send, o, self.env.param_env))),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                _ => {}
            }
        }
        J::A(out)
    }

    fn set_root(&mut self, did: DefId) {
        self.root = did;
        self.env = TypingEnv::post_analysis(self.tcx, did);
    }

    fn key(&mut self, did: DefId, args: GenericArgsRef<'tcx>, sub: Sub) -> usize {
        let k = (did, args, sub, self.root);
        if let Some(&i) = self.keys.get(&k) {
            return i;
        }
        let i = self.keys.len();
        self.keys.insert(k, i);
        self.queue.push_back(k);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            o => format!("{o:?}"),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn path(&self, did: DefId) -> String {
        self.tcx.def_path_str(did)
    }

    fn full_path(&self, did: DefId) -> String {
        // crate::module::.. independent of visible re-exports
        let mut p = self.tcx.crate_name(did.krate).to_string();
        p.push_str(&self.tcx.def_path(did).to_string_no_crate_verbose());
        p
    }

    fn body(&mut self, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let (did, args, sub, root) = k;
        self.set_root(root);
        let raw: Body<'tcx> = match sub {
            Sub::Promoted(p) => self.promoted[&did.expect_local()][p as usize].clone(),
            Sub::Fn => {
                if let Some(l) = did.as_local() {
                    match self.bodies.get(&l) {
                        Some(b) => b.clone(),
                        None => return J::O(vec![("missing", s(self.path(did)))]),
                    }
                } else {
                    tcx.instance_mir(InstanceKind::Item(did)).clone()
                }
            }
        };
        let body = tcx.instantiate_and_normalize_erasing_regions(args, self.env, EarlyBinder::bind(tcx, raw));
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let mut o = vec![("t", n(t))];
            if let Some(nm) = names.get(&i.as_usize()) {
                o.push(("n", s(nm.clone())));
            }
            locals.push(J::O(o));
        }
        let mut upvars = vec![];
        if let Some(l) = did.as_local() {
            if matches!(sub, Sub::Fn) && tcx.is_closure_like(did) {
                for c in tcx.closure_captures(l) {
                    upvars.push(s(c.to_string(tcx)));
                }
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &b.statements {
                if let Some(j) = self.stmt(&body, x) {
                    st.push(j);
                }
            }
            let t = self.term(&body, b.terminator());
            blocks.push(J::A(vec![J::A(st), t]));
        }
        let kind = if tcx.is_coroutine(did) {
            "coroutine"
        } else if tcx.is_closure_like(did) {
            "closure"
        } else {
            match (sub, tcx.def_kind(did)) {
                (Sub::Promoted(_), _) => "promoted",
                (_, DefKind::Fn | DefKind::AssocFn) => "fn",
                _ => "const",
            }
        };
        let targs: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
        let parent = tcx.typeck_root_def_id(did);
        let parent_path = self.path(parent);
        J::O(vec![
            ("name", s(self.path(did))),
            ("full", s(self.full_path(did))),
            ("kind", s(kind)),
            ("parent", s(parent_path)),
            ("local", J::B(did.is_local())),
            ("identity", J::B(did == root && matches!(sub, Sub::Fn) && args == GenericArgs::identity_for_item(tcx, did))),
            ("targs", J::A(targs)),
            ("argc", n(body.arg_count)),
            ("upvars", J::A(upvars)),
            ("span", self.span(tcx.def_span(did))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    // the owner type tells the name of the field
                    let owner = self.ty(pt.ty);
                    J::A(vec![s("f"), n(f.as_usize()), n(ti), n(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize()), n(self.ty(pt.ty))]),
                _ => J::A(vec![s("o")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, c.span)]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("x"), s(format!("{other:?}"))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: rustc_span::Span) -> J {
        let tcx = self.tcx;
        let t = self.ty(c.ty());
        let mut o = vec![("t", n(t))];
        if let TyKind::FnDef(did, args) = *c.ty().kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("fn", self.callee(did, args)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if u.def.as_local().map_or(false, |l| self.promoted.contains_key(&l)) {
                    let k = self.key(u.def, u.args, Sub::Promoted(p.as_u32()));
                    o.push(("body", n(k)));
                    return J::O(o);
                }
            } else {
                o.push(("named", s(self.path(u.def))));
                if u.def.as_local().map_or(false, |l| self.bodies.contains_key(&l)) {
                    let k = self.key(u.def, u.args, Sub::Fn);
                    o.push(("body", n(k)));
                }
            }
        }
        if let Const::Ty(_, ct) = c {
            o.push(("ct", s(format!("{ct:?}"))));
        }
        if let Ok(v) = c.eval(tcx, self.env, span) {
            if let Some(j) = self.cval(v, c.ty(), 0) {
                o.push(("v", j));
            }
        }
        J::O(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                let layout = tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => i,
                    ConstValue::Indirect { alloc_id, offset } => {
                        let a = match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(m) => m,
                            _ => return None,
                        };
                        match a
                            .inner()
                            .read_scalar(&tcx, mir::interpret::alloc_range(offset, layout.size), false)
                            .ok()?
                        {
                            Scalar::Int(i) => i,
                            _ => return None,
                        }
                    }
                    _ => return None,
                };
                let bits = sc.to_bits(layout.size);
                let x: i128 = if let TyKind::Int(_) = t.kind() {
                    layout.size.sign_extend(bits)
                } else {
                    bits as i128
                };
                Some(match t.kind() {
                    TyKind::Bool => J::O(vec![("bool", J::B(x != 0))]),
                    TyKind::Char => J::O(vec![("char", s(char::from_u32(x as u32)?.to_string()))]),
                    // u64 and u128 above i128::MAX cannot occur below u128
                    _ => J::O(vec![("int", s(if let TyKind::Int(_) = t.kind() { x.to_string() } else { bits.to_string() }))]),
                })
            }
            TyKind::Ref(_, inner, _) => match inner.kind() {
                TyKind::Str => {
                    if matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                        return None;
                    }
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]))
                }
                TyKind::Slice(e) => {
                    if *e != tcx.types.u8 || matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                        return None;
                    }
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]))
                }
                _ => {
                    let sc = match v {
                        ConstValue::Scalar(x) => x,
                        ConstValue::Indirect { alloc_id, offset } => {
                            let a = match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(m) => m,
                                _ => return None,
                            };
                            a.inner()
                                .read_scalar(
                                    &tcx,
                                    mir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()),
                                    true,
                                )
                                .ok()?
                        }
                        _ => return None,
                    };
                    match sc {
                        Scalar::Ptr(p, _) => {
                            let (prov, off) = p.into_raw_parts();
                            self.cval(
                                ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                *inner,
                                depth + 1,
                            )
                        }
                        _ => None,
                    }
                }
            },
            TyKind::Tuple(ts) if ts.is_empty() => Some(J::O(vec![("unit", J::B(true))])),
            TyKind::Array(e, _) if *e == tcx.types.u8 => {
                let len = match t.kind() {
                    TyKind::Array(_, l) => l.try_to_target_usize(tcx)?,
                    _ => unreachable!(),
                };
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let a = match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(m) => m,
                        _ => return None,
                    };
                    let st = offset.bytes() as usize;
                    let b = a
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(st..st + len as usize);
                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]));
                }
                None
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if ty::TypeVisitableExt::has_param(&t) {
                    return None;
                }
                if let TyKind::Adt(d, _) = t.kind() {
                    if d.is_union() || d.variants().is_empty() {
                        return None;
                    }
                    if !d.is_enum() && !d.did().is_local() && !matches!(v, ConstValue::ZeroSized) {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let fields: Option<Vec<J>> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                let ti = self.ty(t);
                Some(J::O(vec![
                    ("agg", n(ti)),
                    ("variant", d.variant.map_or(J::Null, |v| n(v.as_usize()))),
                    ("fields", J::A(fields?)),
                ]))
            }
            _ => None,
        }
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(did))), ("name", s(tcx.item_name(did).as_str()))];
        let is_ctor = matches!(tcx.def_kind(did), DefKind::Ctor(..));
        if is_ctor {
            // tuple-struct / variant constructor used as a function value
            let parent = tcx.parent(did);
            let (adt, vidx) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let a = tcx.adt_def(tcx.parent(parent));
                (a, a.variant_index_with_id(parent).as_usize())
            } else {
                (tcx.adt_def(parent), 0)
            };
            self.adt(adt);
            o.push(("ctor", J::A(vec![s(self.path(adt.did())), n(vidx)])));
            return J::O(o);
        }
        let args = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(args));
        let targs: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.path(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate(tcx, args).skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                o.push(("self", n(self.ty(tr.self_ty()))));
            } else {
                let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
                let st = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(st));
                o.push(("self", n(self.ty(st))));
            }
        }
        if tcx.trait_of_assoc(did).is_some() {
            let st = args.type_at(0);
            o.push(("self", n(self.ty(st))));
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(inst)) => {
                let rid = inst.def_id();
                o.push(("res", s(self.path(rid))));
                o.push(("reskind", s(match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                })));
                o.push(("reslocal", J::B(rid.is_local())));
                if let InstanceKind::Item(_) = inst.def {
                    let go = if let Some(l) = rid.as_local() {
                        self.bodies.contains_key(&l)
                    } else {
                        let fp = self.full_path(rid);
                        STD_OK.iter().any(|p| fp.starts_with(p)) && tcx.is_mir_available(rid) && !tcx.is_coroutine(rid)
                    };
                    if go {
                        let k = self.key(rid, inst.args, Sub::Fn);
                        o.push(("key", n(k)));
                    }
                }
            }
            _ => {
                o.push(("reskind", s("generic")));
                if let Some(l) = did.as_local() {
                    if self.bodies.contains_key(&l) {
                        let k = self.key(did, args, Sub::Fn);
                        o.push(("default", n(k)));
                    }
                }
            }
        }
        J::O(o)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(J::Null);
        let mut o = vec![("s", s(t.to_string()))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(x) => {
                o.push(("k", s("int")));
                o.push(("n", s(x.name_str())));
            }
            TyKind::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("n", s(x.name_str())));
            }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Adt(d, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(d.did()))));
                o.push(("local", J::B(d.did().is_local())));
                let a: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
                self.adt(d);
            }
            TyKind::Array(e, l) => {
                o.push(("k", s("array")));
                o.push(("e", n(self.ty(e))));
                o.push(("len", l.try_to_target_usize(tcx).map_or(J::Null, |x| J::N(x as i128))));
            }
            TyKind::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("e", n(self.ty(e))));
            }
            TyKind::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("e", n(self.ty(e))));
            }
            TyKind::RawPtr(e, _) => {
                o.push(("k", s("ptr")));
                o.push(("e", n(self.ty(e))));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            TyKind::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(did, args);
                o.push(("fn", c));
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("p", s(self.path(p))));
                }
            }
            TyKind::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(self.path(did))));
                if did.as_local().map_or(false, |l| self.bodies.contains_key(&l)) {
                    let k = self.key(did, args, Sub::Fn);
                    o.push(("key", n(k)));
                } else if tcx.is_mir_available(did) {
                    let k = self.key(did, args, Sub::Fn);
                    o.push(("key", n(k)));
                }
            }
            TyKind::Coroutine(did, args) => {
                o.push(("k", s("coroutine")));
                o.push(("p", s(self.path(did))));
                if did.as_local().map_or(false, |l| self.bodies.contains_key(&l)) {
                    let k = self.key(did, args, Sub::Fn);
                    o.push(("key", n(k)));
                }
            }
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.as_str())));
            }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[i] = J::O(o);
        i
    }

    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        if self.adts.insert(d.did(), ()).is_some() {
            return;
        }
        let mut vs = vec![];
        let local = d.did().is_local();
        for (vi, v) in d.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let mut fo = vec![("n", s(f.name.as_str())), ("pub", J::B(f.vis.is_public()))];
                if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fo.push(("t", n(self.ty(t))));
                    fo.push(("vis", s(format!("{:?}", f.vis))));
                }
                fs.push(J::O(fo));
            }
            let discr = if d.is_enum() { s(d.discriminant_for_variant(tcx, vi).val.to_string()) } else { J::Null };
            vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", discr), ("f", J::A(fs))]));
        }
        let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        let mut o = vec![
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("box", J::B(d.is_box())),
            ("variants", J::A(vs)),
        ];
        if local {
            o.push(("vis", J::B(tcx.effective_visibilities(()).is_reachable(d.did().expect_local()))));
            o.push(("span", self.span(tcx.def_span(d.did()))));
        }
        self.adt_out.push((self.path(d.did()), J::O(o)));
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx).map_or(J::Null, |x| J::N(x as i128));
                J::A(vec![s("rep"), self.operand(body, o), l])
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "m",
                };
                J::A(vec![s("ref"), s(k), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("ref"), s(if matches!(k, RawPtrKind::Mut) { "m" } else { "s" }), self.place(body, p)])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("reb"), s(if m.is_mut() { "m" } else { "s" }), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(&body.local_decls, tcx);
                let (f, t) = (self.ty(f), self.ty(*t));
                let kk = format!("{k:?}");
                J::A(vec![s("cast"), s(kk), self.operand(body, o), n(f), n(t)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(body, &ab.0), self.operand(body, &ab.1), n(t)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(body, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(did, v, args, _, af) => {
                        let adt = tcx.adt_def(*did);
                        let t = tcx.type_of(*did).instantiate(tcx, args).skip_norm_wip();
                        self.adt(adt);
                        let _ = t;
                        J::A(vec![
                            s("adt"),
                            s(self.path(*did)),
                            n(v.as_usize()),
                            af.map_or(J::Null, |x| n(x.as_usize())),
                        ])
                    }
                    AggregateKind::Closure(did, args) => {
                        let k = self.key(*did, args, Sub::Fn);
                        J::A(vec![s("closure"), n(k), s(self.path(*did))])
                    }
                    AggregateKind::Coroutine(did, args) => {
                        let k = self.key(*did, args, Sub::Fn);
                        J::A(vec![s("coroutine"), n(k), s(self.path(*did))])
                    }
                    AggregateKind::CoroutineClosure(did, _) => J::A(vec![s("coclosure"), s(self.path(*did))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), k, J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, x: &Statement<'tcx>) -> Option<J> {
        match &x.kind {
            StatementKind::Assign(b) => {
                let p = self.place(body, &b.0);
                let r = self.rvalue(body, &b.1);
                Some(J::A(vec![s("a"), p, r, self.span(x.source_info.span)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                Some(J::A(vec![s("sd"), self.place(body, place), n(variant_index.as_usize()), n(t)]))
            }
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), n(l.as_usize())])),
            StatementKind::Intrinsic(i) => Some(J::A(vec![s("intr"), s(format!("{i:?}"))])),
            _ => None,
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let b = |b: &BasicBlock| n(b.as_usize());
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                let d = self.operand(body, discr);
                let vs: Vec<J> = targets
                    .iter()
                    .map(|(v, t)| J::A(vec![s(v.to_string()), n(t.as_usize())]))
                    .collect();
                let dt = self.ty(dt);
                J::A(vec![s("switch"), d, J::A(vs), n(targets.otherwise().as_usize()), n(dt), sp])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("drop"), self.place(body, place), b(target), n(t)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(body, func);
                let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|a| {
                        let t = a.node.ty(&body.local_decls, self.tcx);
                        n(self.ty(t))
                    })
                    .collect();
                let rt = destination.ty(&body.local_decls, self.tcx).ty;
                let rt = self.ty(rt);
                J::A(vec![
                    s("call"),
                    f,
                    J::A(a),
                    self.place(body, destination),
                    target.map_or(J::Null, |t| n(t.as_usize())),
                    J::A(at),
                    n(rt),
                    sp,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)])
                    }
                    AssertKind::Overflow(op, l, r) => {
                        (format!("overflow:{op:?}"), vec![self.operand(body, l), self.operand(body, r)])
                    }
                    o => (format!("{o:?}"), vec![]),
                };
                J::A(vec![
                    s("assert"),
                    self.operand(body, cond),
                    J::B(*expected),
                    s(k),
                    J::A(ops),
                    b(target),
                    sp,
                ])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => J::A(vec![
                s("yield"),
                self.operand(body, value),
                b(resume),
                self.place(body, resume_arg),
            ]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
            TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
            o => J::A(vec![s("other"), s(format!("{o:?}"))]),
        }
    }

    fn items(&mut self, roots: &[(LocalDefId, usize)]) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut out = vec![];
        for (l, k) in roots {
            let did = l.to_def_id();
            self.set_root(did);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| n(self.ty(*t))).collect();
            let o = n(self.ty(sig.output()));
            let mut v = vec![
                ("key", n(*k)),
                ("path", s(self.path(did))),
                ("name", s(tcx.item_name(did).as_str())),
                ("pub", J::B(tcx.visibility(did).is_public())),
                ("reach", J::B(ev.is_reachable(*l))),
                ("in", J::A(ins)),
                ("out", o),
                ("span", self.span(tcx.def_span(did))),
                ("derived", J::B(tcx.def_span(did).from_expansion())),
                ("unsafe", J::B(sig.fn_sig_kind.is_safe() == false)),
            ];
            if let Some(im) = tcx.impl_of_assoc(did) {
                v.push(("self", n({
                    let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                })));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v.push(("trait", s(self.path(tr.def_id))));
                    let ta: Vec<J> = tr.args.types().skip(1).map(|t| n(self.ty(t))).collect();
                    v.push(("targs", J::A(ta)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                v.push(("deftrait", s(self.path(tr))));
            }
            out.push(J::O(v));
        }
        // trait impls (including derives with external traits)
        let mut impls = vec![];
        let mut seen = HashSet::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { .. } = tcx.def_kind(id) {
                if !seen.insert(id) {
                    continue;
                }
                let did = id.to_def_id();
                self.set_root(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                let mut v = vec![("self", n(ti)), ("span", self.span(tcx.def_span(did)))];
                v.push(("derived", J::B(tcx.is_builtin_derived(did))));
                v.push(("expn", J::B(tcx.def_span(did).from_expansion())));
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v.push(("trait", s(self.path(tr.def_id))));
                    v.push(("traits", s(tr.to_string())));
                }
                let ms: Vec<J> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|a| s(a.name().as_str()))
                    .collect();
                v.push(("items", J::A(ms)));
                impls.push(J::O(v));
            }
        }
        J::O(vec![("fns", J::A(out)), ("impls", J::A(impls))])
    }
}

/// not what a macro or derive of another crate (std's included) expanded to
fn ours(span: rustc_span::Span) -> bool {
    span.ctxt().outer_expn_data().macro_def_id.is_none_or(|d| d.is_local())
}

struct Unsafes<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(&'static str, LocalDefId, rustc_span::Span)>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // a macro of another crate vouches for its own expansion
            if ours(b.span) {
                self.found.push(("block", b.hir_id.owner.def_id, b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety == rustc_hir::Safety::Unsafe && ours(i.span) {
                        self.found.push(("impl", i.owner_id.def_id, i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } if ours(i.span) => self.found.push(("extern", i.owner_id.def_id, i.span)),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}
