#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

mod interp;
mod json;
mod num;
mod strings;
mod summaries;
mod text;
mod val;

use interp::*;
use json::esc;
use num::*;
use rustc_public::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;
use std::rc::Rc;
use val::*;

/// Build every abstract value of type `ty` (forking over data-carrying enum variants).
fn make_any(it: &mut Interp, st: State, ty: Ty) -> R<Vec<(State, Val)>> {
    if let Some(t) = it.int_ty(ty) {
        let mut st = st;
        let n = st.fresh(t.full());
        return Ok(vec![(st, Val::Num(n))]);
    }
    let k = it.kind(ty);
    match &*k {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
            let ik = it.kind(*t);
            if matches!(&*ik, TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..))) {
                return Err(format!("unsized root argument {ty}"));
            }
            let mut out = vec![];
            for (mut s, v) in make_any(it, st, *t)? {
                let h = s.alloc(v);
                let p = Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![], off: 0, meta: Meta::None }));
                out.push((s, p));
            }
            Ok(out)
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) => match d.kind() {
            AdtKind::Enum => {
                let n = it.nvariants(ty);
                let mut clike = true;
                for i in 0..n {
                    if !it.fields(ty, i)?.is_empty() {
                        clike = false;
                    }
                }
                if clike {
                    let mut st = st;
                    let x = st.fresh(ISet::range(0, n as I - 1));
                    return Ok(vec![(st, Val::Enum(x, Rc::new(vec![])))]);
                }
                let mut out = vec![];
                for i in 0..n {
                    let fs = it.fields(ty, i)?;
                    for (s, v) in make_any_fields(it, st.clone(), &fs)? {
                        out.push((s, Val::Enum(Num::C(i as I), Rc::new(v))));
                    }
                }
                Ok(out)
            }
            AdtKind::Struct => {
                let fs = it.fields(ty, 0)?;
                Ok(make_any_fields(it, st, &fs)?.into_iter().map(|(s, v)| (s, Val::Agg(Rc::new(v)))).collect())
            }
            AdtKind::Union => Err("union root".into()),
        },
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            Ok(make_any_fields(it, st, ts)?.into_iter().map(|(s, v)| (s, Val::Agg(Rc::new(v)))).collect())
        }
        TyKind::RigidTy(RigidTy::Array(t, _)) => {
            let n = it.array_len(ty).ok_or("array")? as usize;
            let ts = vec![*t; n];
            Ok(make_any_fields(it, st, &ts)?.into_iter().map(|(s, v)| (s, Val::Agg(Rc::new(v)))).collect())
        }
        _ => Err(format!("cannot build an arbitrary {ty}")),
    }
}
fn make_any_fields(it: &mut Interp, st: State, fs: &[Ty]) -> R<Vec<(State, Vec<Val>)>> {
    let mut cur = vec![(st, vec![])];
    for f in fs {
        let mut next = vec![];
        for (s, v) in cur {
            for (s2, x) in make_any(it, s, *f)? {
                let mut v2: Vec<Val> = v.clone();
                v2.push(x);
                next.push((s2, v2));
            }
        }
        cur = next;
    }
    Ok(cur)
}

fn num_json(st: &State, n: &Num) -> String {
    if let Some(c) = st.get_const(n) {
        return c.to_string();
    }
    match n {
        Num::C(c) => c.to_string(),
        Num::L(l) => {
            let t: Vec<String> = l.t.iter().map(|(s, k)| format!("[{s},{k}]")).collect();
            format!("{{\"lin\":[{}],\"c\":{}}}", t.join(","), l.c)
        }
        Num::F(s, e) => {
            let (a, b) = st.bounds(n);
            format!("{{\"fun\":{s},\"lo\":{a},\"hi\":{b},\"e\":{}}}", je(e))
        }
    }
}

fn val_json(it: &mut Interp, st: &State, v: &Val, ty: Ty, depth: usize) -> String {
    if depth > 12 {
        return "\"...\"".into();
    }
    let k = it.kind(ty);
    match v {
        Val::Num(n) => {
            if let TyKind::RigidTy(RigidTy::Bool) = &*k {
                if let Some(c) = st.get_const(n) {
                    return if c != 0 { "true".into() } else { "false".into() };
                }
            }
            num_json(st, n)
        }
        Val::Enum(n, f) => {
            let i = match st.get_const(n) {
                Some(i) => i as usize,
                None => return format!("{{\"variant\":{}}}", num_json(st, n)),
            };
            let name = match &*k {
                TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants()[i].name().to_string(),
                _ => "?".into(),
            };
            if f.is_empty() {
                return esc(&name);
            }
            let fts = it.fields(ty, i).unwrap_or_default();
            let mut o = vec![esc(&name)];
            for (j, x) in f.iter().enumerate() {
                o.push(match fts.get(j) {
                    Some(t) => val_json(it, st, x, *t, depth + 1),
                    None => "null".into(),
                });
            }
            format!("[{}]", o.join(","))
        }
        Val::Agg(f) => {
            let n = f.len();
            let mut o = vec![];
            if let Some(e) = it.elem_ty(ty) {
                for x in f.iter() {
                    o.push(val_json(it, st, x, e, depth + 1));
                }
            } else {
                let fts = it.fields(ty, 0).unwrap_or_default();
                for j in 0..n {
                    o.push(match fts.get(j) {
                        Some(t) => val_json(it, st, &f[j], *t, depth + 1),
                        None => "null".into(),
                    });
                }
            }
            format!("[{}]", o.join(","))
        }
        Val::Ptr(p) => {
            let t = match it.pointee(ty) {
                Some(t) => t,
                None => return "\"ptr\"".into(),
            };
            let tk = it.kind(t);
            if let TyKind::RigidTy(RigidTy::Str) = &*tk {
                return match it.bytes_of(st, v) {
                    Ok(Some(b)) => match String::from_utf8(b) {
                        Ok(s) => esc(&s),
                        Err(_) => "\"<non-utf8>\"".into(),
                    },
                    _ => "\"<str>\"".into(),
                };
            }
            if let TyKind::RigidTy(RigidTy::Slice(e)) = &*tk {
                let n = match &p.meta {
                    Meta::Len(n) => match st.get_const(n) {
                        Some(n) => n,
                        None => return "\"<slice>\"".into(),
                    },
                    _ => return "\"<slice>\"".into(),
                };
                let sz = it.size_of(*e).unwrap_or(1);
                let mut o = vec![];
                for i in 0..n {
                    let mut q = (**p).clone();
                    q.meta = Meta::None;
                    ptr_add(&mut q, i, sz);
                    o.push(match it.read(st, &q, *e) {
                        Ok(x) => val_json(it, st, &x, *e, depth + 1),
                        Err(_) => "null".into(),
                    });
                }
                return format!("[{}]", o.join(","));
            }
            match it.read(st, p, t) {
                Ok(x) => val_json(it, st, &x, t, depth + 1),
                Err(e) => esc(&format!("<{e}>")),
            }
        }
        Val::Fn(i) => esc(&i.name().to_string()),
        Val::Nat(n) => match &**n {
            Nat::Vec(f) => {
                let e = it.generic_elem(ty);
                let mut o = vec![];
                for x in f.iter() {
                    o.push(match e {
                        Some(t) => val_json(it, st, x, t, depth + 1),
                        None => "null".into(),
                    });
                }
                format!("[{}]", o.join(","))
            }
            Nat::Tok(t, i) => format!("\"{t}{i}\""),
        },
        Val::Undef => "null".into(),
    }
}

impl Interp {
    fn generic_elem(&mut self, ty: Ty) -> Option<Ty> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| g.ty().copied()),
            _ => None,
        }
    }
}

fn iset_json(s: &ISet) -> String {
    let v: Vec<String> = s.0.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
    format!("[{}]", v.join(","))
}

fn analyze_root(f: FnDef, out: &mut String) {
    let name = f.name().to_string();
    let t0 = std::time::Instant::now();
    let mut it = Interp::new();
    if let Ok(b) = std::env::var("ABSINT_BUDGET") {
        it.budget = b.parse().unwrap();
    }
    let inst = match Instance::resolve(f, &GenericArgs(vec![])) {
        Ok(i) => i,
        Err(e) => {
            let _ = writeln!(out, "{{\"root\":{},\"error\":{}}}", esc(&name), esc(&format!("{e:?}")));
            return;
        }
    };
    let sig = f.fn_sig().skip_binder();
    let tys: Vec<Ty> = sig.inputs().to_vec();
    let ret_ty = sig.output();
    let body = match it.body(inst) {
        Some(b) => b,
        None => {
            let _ = writeln!(out, "{{\"root\":{},\"error\":\"no body\"}}", esc(&name));
            return;
        }
    };
    // monomorphic types from the body (lifetimes erased)
    let tys: Vec<Ty> = (0..tys.len()).map(|i| body.local_tys[i + 1]).collect();
    let ret_ty = { let _ = ret_ty; body.local_tys[0] };
    let starts = match make_any_fields(&mut it, State::new(), &tys) {
        Ok(s) => s,
        Err(e) => {
            let _ = writeln!(out, "{{\"root\":{},\"error\":{}}}", esc(&name), esc(&e));
            return;
        }
    };
    let mut outs = vec![];
    for (mut s, args) in starts {
        s.nroots = s.syms.len();
        let argj: Vec<String> = args.iter().zip(tys.iter()).map(|(v, t)| val_json(&mut it, &s, v, *t, 0)).collect();
        let seqs = std::env::var("ABSINT_SEQS").ok().map(|s| match s.strip_prefix('@') {
            Some(f) => std::fs::read_to_string(f).unwrap(),
            None => s,
        });
        match seqs {
            None => {
                let r = it.call(inst, args.clone(), &tys, s);
                outs.push((format!("[{}]", argj.join(",")), r));
            }
            Some(q) => {
                for one in q.split(';') {
                    it.fix.seq = Some(one.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
                    let r = it.call(inst, args.clone(), &tys, s.clone());
                    outs.push((format!("[{one:?}]"), r));
                }
            }
        }
    }
    if it.prof_on {
        let mut v: Vec<_> = it.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, c) in v.iter().take(25) {
            eprintln!("[prof] {c} {n}");
        }
    }
    let mut oj = vec![];
    for (aj, r) in outs {
        for o in merge(r) {
            let nr = o.st.nroots;
            let boxes: Vec<String> = (0..nr).map(|i| iset_json(&o.st.syms[i])).collect();
            let (kind, v) = match &o.out {
                Out::Ret(v) => ("ret", val_json(&mut it, &o.st, v, ret_ty, 0)),
                Out::Panic(m) => ("panic", esc(m)),
                Out::Unsup(m) => ("unsup", esc(m)),
            };
            let mut fresh: Vec<String> = vec![];
            for i in nr..o.st.syms.len() {
                fresh.push(format!("\"{i}\":[{},{}]", if o.st.syms[i].is_empty() { 0 } else { o.st.syms[i].min() }, if o.st.syms[i].is_empty() { -1 } else { o.st.syms[i].max() }));
            }
            if std::env::var("ABSINT_MEMO").is_ok() {
                let l: Vec<String> = o.st.memo.iter().map(|m| format!("{}({}) = {}", m.0, m.1.iter().map(text::dump_val).collect::<Vec<_>>().join(" "), text::dump_val(&m.2))).collect();
                eprintln!("memo {v} | {}", l.join("; "));
            }
            let classes: Vec<String> = o.st.memo.iter().filter(|m| m.0 == "bidi").map(|m| match &m.2 {
                Val::Enum(n, _) => {
                    let l: Vec<String> = (0..it.class_names.len()).filter(|i| o.st.can_be(n, *i as num::I)).map(|i| i.to_string()).collect();
                    let y = n.lin().filter(|l| l.c == 0 && l.t.len() == 1).map_or(-1, |l| l.t[0].0 as i64);
                    format!("[{y},[{}]]", l.join(","))
                }
                _ => "[]".into(),
            }).collect();
            let cons: Vec<String> = o
                .st
                .cons
                .iter()
                .map(|(k, (a, b))| {
                    let t: Vec<String> = k.iter().map(|(s, c)| format!("[{s},{c}]")).collect();
                    format!("[[{}],{a},{b}]", t.join(","))
                })
                .collect();
            let mut ev: Vec<String> = vec![];
            for e in o.st.events.iter() {
                let a: Vec<String> = e
                    .args
                    .iter()
                    .map(|v| match v {
                        Val::Num(n) => num_json(&o.st, n),
                        Val::Ptr(_) => match it.bytes_of(&o.st, v) {
                            Ok(Some(b)) => esc(&String::from_utf8_lossy(&b)),
                            _ => "\"<str>\"".into(),
                        },
                        _ => "null".into(),
                    })
                    .collect();
                ev.push(format!("[\"{}\"{}{}]", e.tag, if a.is_empty() { "" } else { "," }, a.join(",")));
            }
            let cl = if classes.is_empty() { String::new() } else { format!(",\"classes\":[{}],\"class_names\":[{}]", classes.join(","), it.class_names.iter().map(|w| esc(w)).collect::<Vec<_>>().join(",")) };
            let ev = if ev.is_empty() { String::new() } else { format!(",\"events\":[{}]", ev.join(",")) } + &cl;
            let mut tx = String::new();
            if !o.st.hist.is_empty() || !o.st.texts.is_empty() {
                let mut v: Vec<String> = o.st.hist.iter().map(|x| x.to_string()).collect();
                for t in o.st.texts.iter() {
                    let mut w = vec![];
                    for (k, i) in t.items.iter().enumerate() {
                        if let (Some(c), true) = (i.c, i.rec > 0) {
                            w.push((i.rec, k, text::sample(o.st.set(c))));
                        }
                    }
                    let mut h = vec![];
                    text::note(&mut h, w);
                    let w: Vec<String> = h.iter().map(|x| x.to_string()).collect();
                    v.extend(w);
                }
                tx = format!(",\"text\":[{}]", v.join(","));
            }
            for a in o.st.atoms.iter() {
                let l = |v: &[Vec<u8>]| v.iter().map(|x| esc(&String::from_utf8_lossy(x))).collect::<Vec<_>>().join(",");
                let q: Vec<Vec<u8>> = a.eq.iter().cloned().collect();
                let c: Vec<Vec<u8>> = a.ci.iter().cloned().collect();
                tx += &format!(",\"word\":{{\"is\":[{}],\"like\":[{}],\"not\":[{}],\"unlike\":[{}]}}", l(&q), l(&c), l(&a.ne), l(&a.nci));
            }
            oj.push(format!(
                "{{\"args\":{aj},\"in\":[{}],\"{kind}\":{v},\"cons\":[{}],\"fresh\":{{{}}}{ev}{tx}}}",
                boxes.join(","),
                cons.join(","),
                fresh.join(",")
            ));
        }
    }
    let fns: Vec<String> = it.analysed.iter().map(|s| esc(s)).collect();
    let _ = writeln!(
        out,
        "{{\"root\":{},\"steps\":{},\"splits\":{},\"ms\":{},\"fns\":[{}],\"outcomes\":[{}]}}",
        esc(&name),
        it.steps,
        it.oblig,
        t0.elapsed().as_millis(),
        fns.join(","),
        oj.join(",")
    );
}

fn analysis() -> ControlFlow<()> {
    let outp = std::env::var("ABSINT_OUT").unwrap_or("/dev/stdout".into());
    let filter = std::env::var("ABSINT_ROOTS").unwrap_or_default();
    let pats: Vec<&str> = filter.split(',').filter(|s| !s.is_empty()).collect();
    let mut out = String::new();
    let mut fns: BTreeMap<String, FnDef> = BTreeMap::new();
    for f in rustc_public::local_crate().fn_defs() {
        fns.insert(f.name().to_string(), f);
    }
    for (n, f) in fns {
        let short = n.split("::").skip(1).collect::<Vec<_>>().join("::");
        // only free functions are query roots (trait impls and closures of the harness are not)
        if short.contains('{') || short.contains('<') || short.rsplit("::").next().unwrap().starts_with('_') {
            continue;
        }
        if pats.iter().any(|p| short == *p || (p.ends_with('*') && short.starts_with(&p[..p.len() - 1]))) {
            let mut one = String::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| analyze_root(f, &mut one)));
            if r.is_err() {
                one = format!("{{\"root\":{},\"error\":\"analyser crashed\"}}\n", esc(&n));
            }
            out.push_str(&one);
        }
    }
    std::fs::write(&outp, out).expect("write output");
    ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = std::env::var("ABSINT_CRATE")
        .map(|c| args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == c))
        .unwrap_or(false);
    if !is_target {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    if let Ok(p) = std::env::var("ABSINT_ARGS") {
        let v: Vec<String> = args.iter().map(|a| esc(a)).collect();
        std::fs::write(p, format!("[{}]", v.join(","))).expect("write args");
        return;
    }
    let r = run!(&args, analysis);
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
        Err(_) => std::process::exit(101),
    }
}

fn je(e: &E) -> String {
    match e {
        E::S => "\"S\"".into(),
        E::C(c) => c.to_string(),
        E::Wrap(t, a) => format!("[\"wrap\",{},{},{}]", t.bits, t.signed, je(a)),
        E::Bin(op, a, b) => format!("[\"{op:?}\",{},{}]", je(a), je(b)),
        E::Tab(t, a) => format!("[\"Tab\",[{}],{}]", t.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect::<Vec<_>>().join(","), je(a)),
    }
}
