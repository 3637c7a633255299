//! Effect analysis: what the operations of the analysed crate can reach besides their arguments.
//!
//! The call graph is the one the monomorphization collector builds (resolved calls, reified functions and closures,
//! vtables, drop glue, functions and statics in constants), from every operation a user can name, through the standard
//! library.  Paths end at functions that never return (panics) and at the few library functions whose
//! effect is not observable (the allocator, one-time initialisation, the hasher's seed).
//!
//!   effects roots=pub     all functions a client can reach that need no type arguments
//!   effects roots=each    the same, one report per function
//!   effects roots=generic the bodies of generic functions, each by itself
//!   effects roots=unsafe  unsafe code written in the crate
use rustc_data_structures::fx::FxHashMap;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::visit::Visitor as MirVisitor;
use rustc_middle::mir::{self, Location};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, VtblEntry};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::HashSet;

const LIBS: [&str; 11] = ["core", "alloc", "std", "hashbrown", "compiler_builtins", "num", "num_traits", "num_integer", "num_iter", "num_rational", "num_complex"];

struct W<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: Vec<Instance<'tcx>>,
    /// instance -> (who uses it, where)
    from: FxHashMap<Instance<'tcx>, Option<(Instance<'tcx>, Span)>>,
    allocs: HashSet<AllocId>,
    statics: FxHashMap<DefId, ()>,
    now: Option<Instance<'tcx>>,
    found: Vec<(String, String, String, Vec<String>)>,
    keys: HashSet<(String, String)>,
    opaque: Vec<String>,
    calls: usize,
    bodies: usize,
    own: Vec<String>,
    stds: usize,
    consts: usize,
    cuts: HashSet<String>,
    generic: bool,
}

fn lib(tcx: TyCtxt<'_>, d: DefId) -> bool {
    LIBS.contains(&tcx.crate_name(d.krate).as_str())
}

impl<'tcx> W<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn loc(&self, sp: Span) -> String {
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
        format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line)
    }
    fn note(&mut self, kind: &str, what: String, at: Span) {
        // the chain of uses, and the innermost place in the crate itself
        let mut chain = vec![];
        let mut site = None;
        let mut i = self.now;
        let mut sp = at;
        while let Some(x) = i {
            let d = x.def_id();
            if !lib(self.tcx, d) && site.is_none() {
                site = Some(format!("{} in {}", self.loc(sp), self.path(d)));
            }
            chain.push(self.path(d));
            match self.from.get(&x) {
                Some(Some((p, s))) => {
                    i = Some(*p);
                    sp = *s;
                }
                _ => break,
            }
            if chain.len() > 60 {
                break;
            }
        }
        let site = site.unwrap_or_else(|| self.loc(at));
        if self.keys.insert((format!("{kind} {what}"), site.clone())) {
            self.found.push((kind.into(), what, site, chain));
        }
    }
    fn push(&mut self, i: Instance<'tcx>, sp: Span) {
        if self.from.contains_key(&i) {
            return;
        }
        self.from.insert(i, self.now.map(|n| (n, sp)));
        self.queue.push(i);
    }

    /// a use of a function: what it is, or where the path goes on
    fn used(&mut self, i: Instance<'tcx>, sp: Span, caller_is_lib: bool) {
        let tcx = self.tcx;
        self.calls += 1;
        let d = i.def_id();
        match i.def {
            InstanceKind::Virtual(..) => return, // its targets are in the vtables built
            InstanceKind::LlvmIntrinsic(_) => return,
            InstanceKind::Intrinsic(_) => {
                if let Some(it) = tcx.intrinsic(d) {
                    if !it.must_be_overridden {
                        self.push(Instance::new_raw(d, i.args), sp);
                    }
                }
                return;
            }
            InstanceKind::Shim(ShimKind::ThreadLocal(s)) => {
                self.tls(s, sp);
                return;
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => return,
            _ => {}
        }
        let p = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        if tcx.is_foreign_item(d) {
            if !(name.starts_with("__rust_") || name.starts_with("miri_") || name.starts_with("__rdl") || matches!(name.as_str(), "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen")) {
                self.note("foreign function", p, sp);
            }
            return;
        }
        if !lib(tcx, d) {
            self.push(i, sp);
            return;
        }
        // the standard library
        if !caller_is_lib {
            let deny = ["std::io::", "std::fs::", "std::net::", "std::env::", "std::time::", "std::process::", "std::thread::", "std::random::", "std::os::", "std::backtrace::"];
            if let Some(m) = deny.iter().find(|m| p.starts_with(**m)) {
                if !pure_io(&p) {
                    self.note("effect", format!("{p} ({})", m.trim_end_matches("::")), sp);
                    return;
                }
            }
            let seeded = i.args.types().any(|t| t.to_string().contains("RandomState"));
            if seeded && (p.contains("hash::map") || p.contains("hash::set") || p.contains("hash_map") || p.contains("hash_set") || p.contains("HashMap") || p.contains("HashSet"))
                && matches!(
                    name.as_str(),
                    "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_iter" | "drain" | "retain" | "into_keys" | "into_values" | "extract_if" | "union" | "intersection" | "difference"
                        | "symmetric_difference"
                )
            {
                self.note("random order", format!("iteration over a randomly seeded hash table: {p}"), sp);
                return;
            }
            if p.contains("LocalKey") {
                self.note("thread-local state", p, sp);
                return;
            }
        }
        if !caller_is_lib && (name == "build_hasher" || name == "hash_one") && i.args.types().any(|t| t.to_string().contains("RandomState")) {
            self.note("random value", p, sp);
            return;
        }
        // an address turned into text
        if matches!(name.as_str(), "new_pointer" | "pointer_fmt_inner") {
            self.note("address as value", p, sp);
            return;
        }
        let sig_never = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(d).skip_binder().output().skip_binder().is_never(),
            _ => false,
        };
        if sig_never {
            self.cuts.insert(p);
            return;
        }
        let once = p.starts_with("std::sync::OnceLock") || p.starts_with("std::sync::once_lock") || p.starts_with("std::sync::LazyLock") || p.starts_with("std::sync::lazy_lock") || p.contains("std::sync::LazyLock");
        if once {
            if !caller_is_lib {
                self.once(i, &p, &name, sp);
            }
            return;
        }
        if p.starts_with("std::hash::RandomState") || p.starts_with("std::hash::random") || p.contains("std::hash::RandomState as ") {
            self.cuts.insert(p);
            return;
        }
        // allocation
        if p.starts_with("alloc::alloc::") || p.starts_with("std::alloc::") || p.contains("as std::alloc::Allocator") || p.contains("as core::alloc::Allocator") || p.contains("std::alloc::Global") {
            self.cuts.insert(p);
            return;
        }
        self.push(i, sp);
    }

    /// one-time initialisation: pure when the initialiser captures nothing
    fn once(&mut self, i: Instance<'tcx>, p: &str, name: &str, sp: Span) {
        match name {
            "deref" | "force" | "new" => {}
            "get_or_init" => {
                for t in i.args.types() {
                    if let ty::Closure(_, a) = t.kind() {
                        let n = a.as_closure().upvar_tys().len();
                        if n > 0 {
                            self.note("global state", format!("{p}: the initial value depends on the first caller ({n} captured variables)"), sp);
                        }
                    }
                }
            }
            _ => self.note("global state", p.to_string(), sp),
        }
        // the initialiser runs
        for t in i.args.types() {
            self.callable(t, sp);
        }
    }
    fn callable(&mut self, t: Ty<'tcx>, sp: Span) {
        match *t.kind() {
            ty::Closure(d, a) => {
                let i = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                self.push(i, sp);
            }
            ty::FnDef(d, a) => {
                if let Some(a) = a.no_bound_vars() {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, d, a) {
                        self.used(i, sp, false);
                    }
                }
            }
            _ => {}
        }
    }

    fn tls(&mut self, d: DefId, sp: Span) {
        let p = self.path(d);
        self.note("thread-local state", p, sp);
    }
    fn a_static(&mut self, d: DefId, sp: Span) {
        let tcx = self.tcx;
        let p = self.path(d);
        if tcx.is_thread_local_static(d) {
            return self.tls(d, sp);
        }
        if tcx.is_foreign_item(d) {
            return self.note("foreign static", p, sp);
        }
        if tcx.is_mutable_static(d) {
            return self.note("global mutable state", format!("static mut {p}"), sp);
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        if p.ends_with("STATIC_INNER_SLICE") {
            return; // the count shared by all empty Arc slices
        }
        if !self.constant(t) {
            self.note("global mutable state", format!("static {p}: {t}"), sp);
            return;
        }
        if self.statics.insert(d, ()).is_none() && !tcx.is_foreign_item(d) {
            if let Ok(a) = tcx.eval_static_initializer(d) {
                let ids: Vec<AllocId> = a.inner().provenance().ptrs().values().map(|p| p.alloc_id()).collect();
                for id in ids {
                    self.alloc(id, sp);
                }
            }
        }
    }
    /// no interior mutability, or only a lock around a value set once
    fn constant(&self, t: Ty<'tcx>) -> bool {
        if t.is_freeze(self.tcx, TypingEnv::fully_monomorphized()) {
            return true;
        }
        match t.kind() {
            ty::Adt(a, args) => {
                let p = self.path(a.did());
                if matches!(p.as_str(), "std::sync::LazyLock" | "std::sync::OnceLock") {
                    return self.constant(args.type_at(0));
                }
                if lib(self.tcx, a.did()) && !matches!(p.as_str(), "std::option::Option" | "std::boxed::Box" | "std::vec::Vec") {
                    return false;
                }
                a.all_fields().all(|f| self.constant(f.ty(self.tcx, args).skip_norm_wip()))
            }
            ty::Array(e, _) | ty::Slice(e) => self.constant(*e),
            ty::Tuple(es) => es.iter().all(|e| self.constant(e)),
            _ => false,
        }
    }
    fn alloc(&mut self, id: AllocId, sp: Span) {
        if !self.allocs.insert(id) {
            return;
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                self.allocs.remove(&id); // each user is a site of its own
                self.a_static(d, sp)
            }
            GlobalAlloc::Memory(m) => {
                let ids: Vec<AllocId> = m.inner().provenance().ptrs().values().map(|p| p.alloc_id()).collect();
                for id in ids {
                    self.alloc(id, sp);
                }
            }
            GlobalAlloc::Function { instance, .. } => {
                let l = self.now.map(|n| lib(self.tcx, n.def_id())).unwrap_or(false);
                self.used(instance, sp, l)
            }
            GlobalAlloc::VTable(t, d) => {
                if let Some(p) = d.principal() {
                    let tr = self.tcx.instantiate_bound_regions_with_erased(p).with_self_ty(self.tcx, t);
                    self.methods(tr, sp);
                }
                self.drop(t, sp);
            }
            _ => {}
        }
    }
    fn methods(&mut self, tr: ty::TraitRef<'tcx>, sp: Span) {
        let es: Vec<Instance<'tcx>> = self.tcx.vtable_entries(tr).iter().filter_map(|e| if let VtblEntry::Method(i) = e { Some(*i) } else { None }).collect();
        let l = self.now.map(|n| lib(self.tcx, n.def_id())).unwrap_or(false);
        for i in es {
            self.used(i, sp, l);
        }
    }
    fn drop(&mut self, t: Ty<'tcx>, sp: Span) {
        if t.needs_drop(self.tcx, self.env) {
            let i = Instance::resolve_drop_glue(self.tcx, t);
            if !matches!(i.def, InstanceKind::Shim(ShimKind::DropGlue(_, None))) {
                self.push(i, sp);
            }
        }
    }
    fn tails(&self, s: Ty<'tcx>, t: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        if let (Some(a), Some(b)) = (s.builtin_deref(true), t.builtin_deref(true)) {
            return Some(self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env));
        }
        match (s.kind(), t.kind()) {
            (ty::Adt(x, a), ty::Adt(y, b)) if x == y => {
                // the field that changes its type
                for f in x.all_fields() {
                    let fa = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, a));
                    let fb = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, b));
                    if fa != fb && !matches!(fa.kind(), ty::Adt(d, _) if d.is_phantom_data()) {
                        return self.tails(fa, fb);
                    }
                }
                None
            }
            (ty::Pat(a, _), ty::Pat(b, _)) => self.tails(*a, *b),
            _ => None,
        }
    }

    fn run(&mut self) {
        while let Some(i) = self.queue.pop() {
            let d = i.def_id();
            let tcx = self.tcx;
            if let InstanceKind::Item(d) = i.def {
                if !tcx.is_mir_available(d) {
                    if !tcx.is_constructor(d) {
                        let p = self.path(d);
                        self.opaque.push(p);
                    }
                    continue;
                }
            }
            self.now = Some(i);
            self.bodies += 1;
            if lib(tcx, d) {
                self.stds += 1;
            } else if matches!(i.def, InstanceKind::Item(_)) {
                let s = format!("{} ({})", self.path(d), self.loc(tcx.def_span(d)));
                self.own.push(s);
            }
            let raw = tcx.instance_mir(i.def);
            let body: mir::Body<'tcx> = if self.generic {
                raw.clone()
            } else {
                i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()))
            };
            let mut s = Scan { body: &body, got: vec![] };
            s.visit_body(&body);
            let got = s.got;
            let own = lib(tcx, d);
            for (g, sp) in got {
                self.handle(g, sp, own);
            }
        }
    }

    fn handle(&mut self, g: Got<'tcx>, sp: Span, caller_is_lib: bool) {
        let tcx = self.tcx;
        match g {
            Got::Call(t) | Got::Reify(t) => {
                if let ty::FnDef(d, a) = *t.kind() {
                    let Some(a) = a.no_bound_vars() else { return };
                    if self.generic && a.has_param() {
                        // the body's own parameters: what is called is judged where they are known
                        if !lib(tcx, d) || tcx.trait_of_assoc(d).is_some() {
                            return;
                        }
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, a) {
                            let n = self.queue.len();
                            self.used(i, sp, caller_is_lib);
                            self.queue.truncate(n);
                        }
                        return;
                    }
                    let i = match g {
                        Got::Reify(_) => Instance::resolve_for_fn_ptr(tcx, self.env, d, a),
                        _ => Instance::try_resolve(tcx, self.env, d, a).ok().flatten(),
                    };
                    match i {
                        Some(i) => {
                            let was = (self.generic, self.queue.len());
                            self.used(i, sp, caller_is_lib);
                            if was.0 {
                                self.queue.truncate(was.1);
                            }
                        }
                        None => {
                            let p = self.path(d);
                            self.opaque.push(p)
                        }
                    }
                }
            }
            Got::Closure(t) => {
                if let ty::Closure(d, a) = *t.kind() {
                    if !self.generic {
                        let i = Instance::resolve_closure(tcx, d, a, ty::ClosureKind::FnOnce);
                        self.push(i, sp);
                    }
                }
            }
            Got::Unsize(s, t) => {
                if self.generic {
                    return;
                }
                if let Some((s, t)) = self.tails(s, t) {
                    if let (ty::Dynamic(preds, ..), false) = (t.kind(), s.is_trait()) {
                        if let Some(p) = preds.principal() {
                            let tr = tcx.instantiate_bound_regions_with_erased(p).with_self_ty(tcx, s);
                            self.methods(tr, sp);
                        }
                        self.drop(s, sp);
                    }
                }
            }
            Got::Drop(t) => {
                if !self.generic {
                    self.drop(t, sp)
                }
            }
            Got::Tls(d) => self.tls(d, sp),
            Got::Asm => {
                if !caller_is_lib {
                    self.note("inline assembly", "asm!".into(), sp)
                }
            }
            Got::Const(c) => {
                self.consts += 1;
                if self.generic && c.has_param() {
                    return;
                }
                if let Ok(v) = c.eval(tcx, self.env, sp) {
                    match v {
                        mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => self.alloc(p.provenance.alloc_id(), sp),
                        mir::ConstValue::Slice { alloc_id, .. } | mir::ConstValue::Indirect { alloc_id, .. } => self.alloc(alloc_id, sp),
                        _ => {}
                    }
                }
            }
        }
    }
}

fn pure_io(p: &str) -> bool {
    p.contains("io::Cursor") || p.contains("io::cursor") || p.starts_with("std::time::Duration") || p.contains("Duration as ")
}

enum Got<'tcx> {
    Call(Ty<'tcx>),
    Reify(Ty<'tcx>),
    Closure(Ty<'tcx>),
    Unsize(Ty<'tcx>, Ty<'tcx>),
    Drop(Ty<'tcx>),
    Tls(DefId),
    Const(mir::Const<'tcx>),
    Asm,
}
struct Scan<'a, 'tcx> {
    body: &'a mir::Body<'tcx>,
    got: Vec<(Got<'tcx>, Span)>,
}
fn tcx_of<'tcx>() -> TyCtxt<'tcx> {
    ty::tls::with(|t| unsafe { std::mem::transmute::<TyCtxt<'_>, TyCtxt<'tcx>>(t) })
}
impl<'a, 'tcx> MirVisitor<'tcx> for Scan<'a, 'tcx> {
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: Location) {
        let sp = self.body.source_info(l).span;
        let tcx = tcx_of();
        match r {
            mir::Rvalue::Cast(mir::CastKind::PointerCoercion(k, _), o, t) => {
                let s = o.ty(self.body, tcx);
                match k {
                    PointerCoercion::Unsize => self.got.push((Got::Unsize(s, *t), sp)),
                    PointerCoercion::ReifyFnPointer(_) => self.got.push((Got::Reify(s), sp)),
                    PointerCoercion::ClosureFnPointer(_) => self.got.push((Got::Closure(s), sp)),
                    _ => {}
                }
            }
            mir::Rvalue::ThreadLocalRef(d) => self.got.push((Got::Tls(*d), sp)),
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: Location) {
        if !c.const_.ty().is_fn() {
            self.got.push((Got::Const(c.const_), c.span));
        }
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: Location) {
        let sp = t.source_info.span;
        let tcx = tcx_of();
        match &t.kind {
            mir::TerminatorKind::Call { func, .. } | mir::TerminatorKind::TailCall { func, .. } => self.got.push((Got::Call(func.ty(self.body, tcx)), sp)),
            mir::TerminatorKind::Drop { place, .. } => self.got.push((Got::Drop(place.ty(self.body, tcx).ty), sp)),
            mir::TerminatorKind::InlineAsm { .. } => self.got.push((Got::Asm, sp)),
            _ => {}
        }
        self.super_terminator(t, l);
    }
}

// ------------------------------------------------------------------ unsafe code
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
    exprs: usize,
}
impl<'tcx> Unsafe<'tcx> {
    /// written by the standard library's own macros
    fn theirs(&self, sp: Span) -> bool {
        sp.ctxt().outer_expn_data().macro_def_id.map(|d| lib(self.tcx, d)).unwrap_or(false)
    }
}
impl<'tcx> hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            if !self.theirs(b.span) {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        hir::intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        self.exprs += 1;
        hir::intravisit::walk_expr(self, e);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        let d = i.owner_id.to_def_id();
        let sp = self.tcx.def_span(d);
        if !self.theirs(sp) {
            match i.kind {
                hir::ItemKind::ForeignMod { .. } => self.found.push(("extern block".into(), sp)),
                hir::ItemKind::Impl(im) if im.of_trait.map(|t| t.safety.is_unsafe()).unwrap_or(false) => self.found.push(("unsafe impl".into(), sp)),
                hir::ItemKind::GlobalAsm { .. } => self.found.push(("global assembly".into(), sp)),
                hir::ItemKind::Static(hir::Mutability::Mut, ..) => self.found.push(("static mut".into(), sp)),
                _ => {}
            }
            if matches!(self.tcx.def_kind(d), DefKind::Trait) && self.tcx.trait_def(d).safety.is_unsafe() {
                self.found.push(("unsafe trait".into(), sp));
            }
        }
        hir::intravisit::walk_item(self, i);
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}
fn list(v: &[String]) -> String {
    v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
}

fn fresh<'tcx>(tcx: TyCtxt<'tcx>) -> W<'tcx> {
    W {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        queue: vec![],
        from: Default::default(),
        allocs: Default::default(),
        statics: Default::default(),
        now: None,
        found: vec![],
        keys: Default::default(),
        opaque: vec![],
        calls: 0,
        bodies: 0,
        own: vec![],
        stds: 0,
        consts: 0,
        cuts: Default::default(),
        generic: false,
    }
}

/// What a client crate can name in the crate `seshat`: functions that yield or change values of a type, its fields.
fn api<'tcx>(tcx: TyCtxt<'tcx>, line: &str, out: &mut String) {
    let want = line.split_whitespace().find_map(|w| w.strip_prefix("type=")).unwrap_or("CodePoint");
    let Some(cnum) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "seshat") else {
        out.push_str("{\"name\":\"api\",\"error\":\"no crate seshat\"}");
        return;
    };
    let mut mods = vec![cnum.as_def_id()];
    let mut seen = HashSet::new();
    let (mut fns, mut adts) = (vec![], vec![]);
    while let Some(m) = mods.pop() {
        for c in tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            let Some(d) = c.res.opt_def_id() else { continue };
            if !seen.insert(d) {
                continue;
            }
            match c.res {
                hir::def::Res::Def(DefKind::Mod, d) if d.krate == cnum => mods.push(d),
                hir::def::Res::Def(DefKind::Fn, d) => fns.push((d, None)),
                hir::def::Res::Def(DefKind::Struct | DefKind::Enum | DefKind::Union, d) => adts.push(d),
                _ => {}
            }
        }
    }
    let has = |t: Ty<'tcx>| t.walk().any(|a| matches!(a.as_type().map(|t| t.kind()), Some(ty::Adt(d, _)) if tcx.item_name(d.did()).as_str() == want && d.did().krate == cnum));
    for a in &adts {
        for im in tcx.inherent_impls(*a) {
            for it in tcx.associated_items(*im).in_definition_order() {
                if it.is_fn() && tcx.visibility(it.def_id).is_public() {
                    fns.push((it.def_id, None));
                }
            }
        }
    }
    for im in tcx.trait_impls_in_crate(cnum) {
        let tr = tcx.impl_trait_ref(*im).instantiate_identity().skip_norm_wip();
        for it in tcx.associated_items(*im).in_definition_order() {
            if it.is_fn() {
                fns.push((it.def_id, Some(tr)));
            }
        }
    }
    let mut items = vec![];
    for (d, tr) in &fns {
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(*d).instantiate_identity().skip_norm_wip());
        let out_has = has(sig.output());
        let mut_has = sig.inputs().iter().any(|t| t.walk().any(|a| matches!(a.as_type().map(|t| *t.kind()), Some(ty::Ref(_, x, hir::Mutability::Mut)) if has(x))));
        if !out_has && !mut_has {
            continue;
        }
        let generic = tcx.generics_of(*d).requires_monomorphization(tcx);
        let path = with_no_trimmed_paths!(match tr {
            Some(tr) => format!("<{} as {}>::{}", tr.self_ty(), tr.print_only_trait_path(), tcx.item_name(*d)),
            None => tcx.def_path_str(*d),
        });
        let ins: Vec<String> = sig.inputs().iter().map(|t| with_no_trimmed_paths!(t.to_string())).collect();
        let l = tcx.sess.source_map().lookup_char_pos(tcx.def_span(*d).lo());
        items.push(format!(
            "{{\"path\":\"{}\",\"in\":[{}],\"out\":\"{}\",\"yields\":{},\"changes\":{},\"generic\":{},\"at\":\"{}:{}\"}}",
            esc(&path),
            list(&ins),
            esc(&with_no_trimmed_paths!(sig.output().to_string())),
            out_has,
            mut_has,
            generic,
            esc(&l.file.name.prefer_remapped_unconditionally().to_string()),
            l.line
        ));
    }
    let mut fields = vec![];
    for a in &adts {
        for f in tcx.adt_def(*a).all_fields() {
            if tcx.item_name(*a).as_str() == want {
                fields.push(format!("{{\"name\":\"{}\",\"public\":{}}}", f.name, f.vis.is_public()));
            }
        }
    }
    out.push_str(&format!("{{\"name\":\"api\",\"types\":{},\"functions\":{},\"items\":[{}],\"fields\":[{}]}}", adts.len(), fns.len(), items.join(","), fields.join(",")));
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, line: &str, out: &mut String) {
    if line.contains("roots=api") {
        return api(tcx, line, out);
    }
    let roots = line.split_whitespace().find_map(|w| w.strip_prefix("roots=")).unwrap_or("pub");
    let mut w = fresh(tcx);
    let mut names = vec![];
    let mut each: Vec<String> = vec![];
    match roots {
        "unsafe" => {
            let mut u = Unsafe { tcx, found: vec![], exprs: 0 };
            tcx.hir_walk_toplevel_module(&mut u);
            for d in tcx.hir_body_owners() {
                let def = d.to_def_id();
                if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(def).skip_binder().skip_binder().safety().is_unsafe() && !u.theirs(tcx.def_span(def)) {
                    u.found.push(("unsafe function".into(), tcx.def_span(def)));
                }
            }
            let n = u.exprs;
            let found = std::mem::take(&mut u.found);
            for (k, sp) in found {
                let at = w.loc(sp);
                w.found.push((k, String::new(), at, vec![]));
            }
            w.bodies = tcx.hir_body_owners().count();
            w.calls = n;
        }
        _ => {
            let vis = tcx.effective_visibilities(());
            for k in tcx.mir_keys(()) {
                let d = k.to_def_id();
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    continue;
                }
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                let open = vis.is_reachable(*k) || tcx.impl_of_assoc(d).map(|i| tcx.def_kind(i) == DefKind::Impl { of_trait: true }).unwrap_or(false);
                if generic != (roots == "generic") || !open {
                    continue;
                }
                names.push(w.path(d));
                if generic {
                    w.generic = true;
                    w.env = TypingEnv::post_analysis(tcx, d);
                    let i = Instance::new_raw(d, GenericArgs::identity_for_item(tcx, d));
                    w.now = None;
                    w.push(i, tcx.def_span(d));
                    w.run();
                } else {
                    let args = GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    w.now = None;
                    w.push(Instance::new_raw(d, args), tcx.def_span(d));
                    if roots == "each" {
                        w.run();
                        let mut o = String::new();
                        let done = std::mem::replace(&mut w, fresh(tcx));
                        report(done, std::mem::take(&mut names), &mut o);
                        each.push(o);
                    }
                }
            }
            if roots == "pub" {
                w.run();
            }
        }
    }
    if roots == "each" {
        out.push_str(&format!("{{\"name\":\"effects\",\"each\":[{}]}}", each.join(",")));
        return;
    }
    report(w, names, out);
}

fn report<'tcx>(mut w: W<'tcx>, names: Vec<String>, out: &mut String) {
    w.opaque.sort();
    w.opaque.dedup();
    w.own.sort();
    w.own.dedup();
    let mut cuts: Vec<String> = w.cuts.iter().cloned().collect();
    cuts.sort();
    let mut st: Vec<String> = w.statics.keys().map(|d| w.path(*d)).collect();
    st.sort();
    out.push_str(&format!(
        "{{\"name\":\"effects\",\"roots\":{},\"bodies\":{},\"std_bodies\":{},\"calls\":{},\"consts\":{},\"statics\":[{}],\"cuts\":[{}],\"opaque\":[{}],\"own\":[{}],\"root_names\":[{}],\"found\":[{}]}}",
        names.len(),
        w.bodies,
        w.stds,
        w.calls,
        w.consts,
        list(&st),
        list(&cuts),
        list(&w.opaque),
        list(&w.own),
        list(&names),
        w.found
            .iter()
            .map(|(k, a, b, c)| format!("{{\"kind\":\"{}\",\"what\":\"{}\",\"at\":\"{}\",\"path\":[{}]}}", esc(k), esc(a), esc(b), list(c)))
            .collect::<Vec<_>>()
            .join(",")
    ));
}
