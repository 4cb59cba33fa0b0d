//! Effect and unsafety inventory of /repo's library crates, read from the type-checked program and
//! its MIR. Run with the rustc command line of the query harness, which links every `unic*` crate.
//!
//! Prints one JSON object per line:
//!   {"crate":..,"fns":n}                              a crate that was read
//!   {"static":path,"mut":b,"freeze":b,"tls":b,"ty":..,"at":..}
//!   {"type":path,"cells":[..],"unsync":[..],"drop":b,"at":..}
//!   {"call":callee,"krate":..,"by":[[caller,at]..],"unsafe":b,"foreign":b}
//!   {"op":kind,"fn":path,"at":..}
//!   {"unsafe_impl":trait,"of":ty,"at":..}
//!   {"field":path,"vis":b,"ty":..}                    visibility of the fields of public types
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::visit::{TyContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Call {
    krate: String,
    by: BTreeSet<(String, String)>,
    uns: bool,
    foreign: bool,
    rust_abi: bool,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    calls: BTreeMap<String, Call>,
    ops: BTreeSet<(String, String, String)>,
}

fn at(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let s = tcx.sess.source_map().span_to_diagnostic_string(sp.source_callsite());
    let s = s.split(": ").next().unwrap_or("").to_string();
    s.strip_prefix("/repo/").unwrap_or(&s).to_string()
}

struct V<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    name: String,
    def: DefId,
}

impl<'a, 'tcx> V<'a, 'tcx> {
    /// is this expanded from a macro of another crate (`vec!`, `format!`, a derive)?
    fn expanded(&self, loc: Location) -> bool {
        let mut ctxt = self.body.source_info(loc).span.ctxt();
        while !ctxt.is_root() {
            let e = ctxt.outer_expn_data();
            if e.macro_def_id.is_some_and(|d| !self.cx.tcx.crate_name(d.krate).as_str().starts_with("unic")) {
                return true;
            }
            ctxt = e.call_site.ctxt();
        }
        false
    }
    fn op(&mut self, k: &str, loc: Location) {
        if k != "thread-local" && self.expanded(loc) {
            return;
        }
        let sp = self.body.source_info(loc).span;
        let w = at(self.cx.tcx, sp);
        self.cx.ops.insert((k.into(), self.name.clone(), w));
    }
    fn call(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, loc: Location) {
        let tcx = self.cx.tcx;
        let mut ds = vec![d];
        // a value that is computed once must not depend on who asks first
        if tcx.def_path_str(d).contains("Once") && tcx.item_name(d).as_str().contains("init") {
            for t in args.types() {
                if let ty::Closure(_, a) = t.kind() {
                    if !a.as_closure().upvar_tys().is_empty() {
                        self.op("shared value initialised from arguments", loc);
                    }
                }
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, self.def);
        if tcx.trait_of_assoc(d).is_some() {
            let a = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(tcx.erase_and_anonymize_regions(args));
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a) {
                if i.def_id() != d {
                    ds.push(i.def_id());
                }
            }
        }
        let w = at(tcx, self.body.source_info(loc).span);
        let ex = self.expanded(loc);
        for d in ds {
            let p = tcx.def_path_str(d);
            let uns = !ex && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let foreign = tcx.is_foreign_item(d);
            let kr = tcx.crate_name(d.krate).to_string();
            let e = self.cx.calls.entry(if uns { format!("unsafe {p}") } else { p }).or_insert(Call { krate: kr, by: BTreeSet::new(), uns, foreign, rust_abi: true });
            e.by.insert((self.name.clone(), w.clone()));
        }
    }
}

impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, loc: Location) {
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            let args = args.skip_binder();
            self.call(*d, args, loc);
        }
        if let Some(d) = c.check_static_ptr(self.cx.tcx) {
            let p = self.cx.tcx.def_path_str(d);
            if !self.cx.tcx.crate_name(d.krate).as_str().starts_with("unic") {
                self.op(&format!("static {p}"), loc);
            }
        }
        self.super_const_operand(c, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::ThreadLocalRef(_) => self.op("thread-local", loc),
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => self.op("address as integer", loc),
            Rvalue::BinaryOp(_, b) => {
                let t = b.0.ty(&self.body.local_decls, tcx);
                if matches!(t.kind(), ty::RawPtr(..) | ty::FnPtr(..)) {
                    self.op("address comparison", loc);
                }
            }
            _ => {}
        }
        self.super_rvalue(r, loc);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, loc: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.op("inline assembly", loc);
        }
        self.super_terminator(t, loc);
    }
    fn visit_place(&mut self, p: &Place<'tcx>, cx: visit::PlaceContext, loc: Location) {
        let tcx = self.cx.tcx;
        for (base, elem) in p.iter_projections() {
            let t = base.ty(&self.body.local_decls, tcx).ty;
            match elem {
                // `Box` derefs are lowered to raw pointer derefs by the drop elaboration
                ProjectionElem::Deref if t.is_raw_ptr() => {
                    if !matches!(self.body.local_decls[base.local].local_info.as_ref().unwrap_crate_local_or(), true) {
                        self.op("raw pointer dereference", loc);
                    }
                }
                ProjectionElem::Field(..) if t.is_union() => self.op("union field", loc),
                _ => {}
            }
        }
        self.super_place(p, cx, loc);
    }
    fn visit_ty(&mut self, _: Ty<'tcx>, _: TyContext) {}
}

trait Loc {
    fn unwrap_crate_local_or(self) -> bool;
}
impl<'tcx> Loc for ClearCrossCrate<&Box<LocalInfo<'tcx>>> {
    /// is this a compiler-made local (a static's address or a box's pointer)?
    fn unwrap_crate_local_or(self) -> bool {
        match self {
            ClearCrossCrate::Set(x) => matches!(**x, LocalInfo::StaticRef { .. }),
            ClearCrossCrate::Clear => false,
        }
    }
}

fn is_unic(tcx: TyCtxt<'_>, c: CrateNum) -> bool {
    c != LOCAL_CRATE && tcx.crate_name(c).as_str().starts_with("unic")
}

/// what a value of `t` owns or refers to: interior mutability and thread-bound parts
fn parts<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut BTreeSet<String>, cells: &mut BTreeSet<String>, unsync: &mut BTreeSet<String>) {
    if !seen.insert(t.to_string()) {
        return;
    }
    match t.kind() {
        ty::Adt(d, args) => {
            let p = tcx.def_path_str(d.did());
            let last = p.rsplit("::").next().unwrap_or("");
            if matches!(last, "UnsafeCell" | "Cell" | "RefCell" | "OnceCell" | "LazyCell" | "SyncUnsafeCell" | "Mutex" | "RwLock" | "OnceLock" | "LazyLock" | "Once" | "Condvar" | "Atomic")
                || last.starts_with("Atomic")
            {
                cells.insert(t.to_string());
            }
            if matches!(last, "UnsafeCell" | "Cell" | "RefCell" | "OnceCell" | "LazyCell" | "Rc" | "NonNull") || p.contains("rc::Weak") || last.ends_with("Guard") {
                unsync.insert(t.to_string());
            }
            if is_unic(tcx, d.did().krate) {
                for f in d.all_fields() {
                    parts(tcx, tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip(), seen, cells, unsync);
                }
            }
            for a in args.types() {
                parts(tcx, a, seen, cells, unsync);
            }
        }
        ty::Ref(_, x, _) | ty::Slice(x) | ty::Array(x, _) => parts(tcx, *x, seen, cells, unsync),
        ty::RawPtr(..) => {
            unsync.insert(t.to_string());
        }
        ty::Tuple(ts) => {
            for x in ts.iter() {
                parts(tcx, x, seen, cells, unsync);
            }
        }
        ty::Dynamic(preds, ..) => {
            let au: Vec<String> = preds.auto_traits().map(|d| tcx.def_path_str(d)).collect();
            if !au.iter().any(|x| x.ends_with("Send")) || !au.iter().any(|x| x.ends_with("Sync")) {
                unsync.insert(t.to_string());
            }
        }
        _ => {}
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let _g = ty::print::with_no_trimmed_paths!({ scan(tcx) });
        Compilation::Stop
    }
}

fn scan(tcx: TyCtxt<'_>) {
    let mut out = String::new();
    let mut cx = Cx { tcx, calls: BTreeMap::new(), ops: BTreeSet::new() };
    for &c in tcx.crates(()) {
        if !is_unic(tcx, c) {
            continue;
        }
        let mut nf = 0;
        for i in 0..tcx.num_extern_def_ids(c) {
            let d = DefId { krate: c, index: DefIndex::from_usize(i) };
            let k = tcx.def_kind(d);
            let p = || tcx.def_path_str(d);
            match k {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    let tls = tcx.is_thread_local_static(d);
                    let _ = writeln!(out, "{{\"static\":{},\"mut\":{},\"freeze\":{fr},\"tls\":{tls},\"ty\":{},\"at\":{}}}", esc(&p()), mutability.is_mut(), esc(&t.to_string()), esc(&at(tcx, tcx.def_span(d))));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
                    parts(tcx, t, &mut BTreeSet::new(), &mut a, &mut b);
                    let l = |s: &BTreeSet<String>| s.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
                    let adt = tcx.adt_def(d);
                    let _ = writeln!(out, "{{\"type\":{},\"cells\":[{}],\"unsync\":[{}],\"drop\":{},\"at\":{}}}", esc(&p()), l(&a), l(&b), adt.has_dtor(tcx), esc(&at(tcx, tcx.def_span(d))));
                    if k == DefKind::Struct {
                        for f in adt.all_fields() {
                            let _ = writeln!(
                                out,
                                "{{\"field\":{},\"vis\":{},\"ty\":{},\"at\":{}}}",
                                esc(&format!("{}::{}", p(), f.name)),
                                f.vis.is_public(),
                                esc(&tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string()),
                                esc(&at(tcx, tcx.def_span(f.did)))
                            );
                        }
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(d);
                    if h.safety.is_unsafe() {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let _ = writeln!(out, "{{\"unsafe_impl\":{},\"of\":{},\"at\":{}}}", esc(&tcx.def_path_str(tr.def_id)), esc(&tr.self_ty().to_string()), esc(&at(tcx, tcx.def_span(d))));
                    }
                }
                _ => {}
            }
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
                nf += 1;
                let body = tcx.optimized_mir(d);
                let name = p();
                let mut v = V { cx: &mut cx, body, name, def: d };
                v.visit_body(body);
            } else if matches!(k, DefKind::Fn) && tcx.is_foreign_item(d) {
                let _ = writeln!(out, "{{\"op\":\"foreign function\",\"fn\":{},\"at\":{}}}", esc(&p()), esc(&at(tcx, tcx.def_span(d))));
            } else if matches!(k, DefKind::Fn | DefKind::AssocFn) && tcx.trait_of_assoc(d).is_none() && !tcx.is_mir_available(d) {
                let _ = writeln!(out, "{{\"op\":\"no body\",\"fn\":{},\"at\":{}}}", esc(&p()), esc(&at(tcx, tcx.def_span(d))));
            }
        }
        let _ = writeln!(out, "{{\"crate\":{},\"fns\":{nf}}}", esc(tcx.crate_name(c).as_str()));
    }
    for (k, f, w) in &cx.ops {
        let _ = writeln!(out, "{{\"op\":{},\"fn\":{},\"at\":{}}}", esc(k), esc(f), esc(w));
    }
    for (p, c) in &cx.calls {
        let _ = c.rust_abi;
        let by: Vec<String> = c.by.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect();
        let _ = writeln!(out, "{{\"call\":{},\"krate\":{},\"unsafe\":{},\"foreign\":{},\"by\":[{}]}}", esc(p), esc(&c.krate), c.uns, c.foreign, by.join(","));
    }
    std::fs::write(std::env::var("EFFECTS_OUT").unwrap_or("/dev/stdout".into()), out).expect("write output");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
