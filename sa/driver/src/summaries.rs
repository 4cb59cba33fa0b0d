//! Transfer functions for intrinsics and for a few std functions whose documented contract is used
//! instead of their MIR.
use crate::interp::*;
use crate::num::*;
use crate::val::*;
use rustc_public::mir::BinOp;
use rustc_public::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::ty::*;
use std::rc::Rc;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub fn ret(st: State, v: Val) -> Vec<Outcome> {
    vec![Outcome { st, out: Out::Ret(v) }]
}
pub fn unit() -> Val {
    Val::Agg(Rc::new(vec![]))
}
pub fn num(n: Num) -> Val {
    Val::Num(n)
}
pub fn cnum(n: I) -> Val {
    Val::Num(Num::C(n))
}
pub fn cenum(v: usize, f: Vec<Val>) -> Val {
    Val::Enum(Num::C(v as I), Rc::new(f))
}
pub fn none() -> Val {
    cenum(0, vec![])
}
pub fn some(v: Val) -> Val {
    cenum(1, vec![v])
}

/// the operation on Vec or VecDeque a name stands for
fn container(name: &str) -> Option<&str> {
    for p in ["std::vec::Vec::<T>::", "std::vec::Vec::<T, A>::", "std::collections::VecDeque::<T>::", "std::collections::VecDeque::<T, A>::", "alloc::vec::Vec::<T>::", "alloc::vec::Vec::<T, A>::"] {
        if let Some(m) = name.strip_prefix(p) {
            return Some(m);
        }
    }
    for p in ["<std::vec::IntoIter<T, A> as ", "<std::vec::IntoIter<T> as ", "<std::collections::vec_deque::IntoIter<T, A> as "] {
        if name.starts_with(p) {
            let m = name.rsplit("::").next()?;
            return match m {
                "next" => Some("pop_front"),
                "next_back" => Some("pop_back"),
                "len" | "clone" | "drop" | "size_hint" => Some(m),
                _ => None,
            };
        }
    }
    for p in ["<std::vec::Vec<T, A> as ", "<std::vec::Vec<T> as ", "<std::collections::VecDeque<T, A> as ", "<std::collections::VecDeque<T> as "] {
        if name.starts_with(p) {
            let m = name.rsplit("::").next()?;
            return match m {
                "deref" | "deref_mut" | "clone" | "default" | "drop" => Some(m),
                "into_iter" if name.starts_with("<std::vec::Vec<T, A> as") || name.starts_with("<std::vec::Vec<T> as") || name.starts_with("<std::collections::VecDeque<T, A> as") => Some(m),
                "index" | "index_mut" if p.contains("VecDeque") => Some(m),
                _ => None,
            };
        }
    }
    None
}

impl Interp {
    /// Vec and VecDeque with a known number of elements: the documented contract
    fn container(&mut self, m: &str, args: &[Val], arg_tys: &[Ty], st: &State) -> R<Option<Vec<Outcome>>> {
        let mut s = st.clone();
        match m {
            "new" | "default" | "with_capacity" => {
                return Ok(Some(ret(s, Val::Nat(Rc::new(Nat::Vec(vec![]))))));
            }
            "drop" => return Ok(Some(ret(s, unit()))),
            "into_iter" => return Ok(matches!(&args[0], Val::Nat(n) if matches!(**n, Nat::Vec(_))).then(|| ret(s, args[0].clone()))),
            _ => {}
        }
        let p = match &args.get(0) {
            Some(Val::Ptr(p)) => (**p).clone(),
            _ => return Ok(None),
        };
        let ty = self.pointee(arg_tys[0]).ok_or("container")?;
        let mut v = match self.read(st, &p, ty)? {
            Val::Nat(n) => match &*n {
                Nat::Vec(v) => v.clone(),
                _ => return Ok(None),
            },
            _ => return Ok(None),
        };
        let n = v.len();
        let nat = |v: Vec<Val>| Val::Nat(Rc::new(Nat::Vec(v)));
        let idx = |me: &Self, k: usize| -> R<usize> { Ok(st.get_const(&me.num(&args[k])?).ok_or("an index that is not known")? as usize) };
        let elem = |i: usize, meta: Meta| {
            let mut q = p.clone();
            q.path.push(P::I(i as I));
            q.meta = meta;
            Val::Ptr(Rc::new(q))
        };
        let panic = |w: &str| Ok(Some(vec![Outcome { st: st.clone(), out: Out::Panic(w.into()) }]));
        let v = match m {
            "len" => cnum(n as I),
            "capacity" => cnum(n as I),
            "is_empty" => cnum((n == 0) as I),
            "reserve" | "shrink_to_fit" => unit(),
            "size_hint" => Val::Agg(Rc::new(vec![cnum(n as I), some(cnum(n as I))])),
            "truncate" | "resize" => {
                let k = idx(self, 1)?;
                if k > 4096 || m == "truncate" && k > n {
                    return Ok(None);
                }
                v.truncate(k);
                while v.len() < k {
                    v.push(args[2].clone());
                }
                self.write(&mut s, &p, nat(v))?;
                unit()
            }
            "clone" => nat(v),
            "deref" | "deref_mut" | "as_slice" | "as_mut_slice" => elem(0, Meta::Len(Num::C(n as I))),
            "push" | "push_back" => {
                v.push(args[1].clone());
                self.write(&mut s, &p, nat(v))?;
                unit()
            }
            "push_front" => {
                v.insert(0, args[1].clone());
                self.write(&mut s, &p, nat(v))?;
                unit()
            }
            "pop" | "pop_back" | "pop_front" => {
                if n == 0 {
                    none()
                } else {
                    let x = if m == "pop_front" { v.remove(0) } else { v.pop().unwrap() };
                    self.write(&mut s, &p, nat(v))?;
                    some(x)
                }
            }
            "clear" => {
                self.write(&mut s, &p, nat(vec![]))?;
                unit()
            }
            "insert" => {
                let i = idx(self, 1)?;
                if i > n {
                    return panic("insertion index should be <= len");
                }
                v.insert(i, args[2].clone());
                self.write(&mut s, &p, nat(v))?;
                unit()
            }
            "remove" => {
                let i = idx(self, 1)?;
                if i >= n {
                    return panic("removal index should be < len");
                }
                let x = v.remove(i);
                self.write(&mut s, &p, nat(v))?;
                x
            }
            "swap" => {
                let (i, j) = (idx(self, 1)?, idx(self, 2)?);
                if i >= n || j >= n {
                    return panic("swap out of bounds");
                }
                v.swap(i, j);
                self.write(&mut s, &p, nat(v))?;
                unit()
            }
            "front" | "back" => {
                if n == 0 {
                    none()
                } else {
                    some(elem(if m == "front" { 0 } else { n - 1 }, Meta::None))
                }
            }
            "get" => {
                let i = idx(self, 1)?;
                if i < n { some(elem(i, Meta::None)) } else { none() }
            }
            "index" | "index_mut" => {
                let i = idx(self, 1)?;
                if i >= n {
                    return panic("Out of bounds access");
                }
                elem(i, Meta::None)
            }
            _ => return Ok(None),
        };
        Ok(Some(ret(s, v)))
    }
    /// Bidi_Class as a function of which nothing is known
    pub fn bidi_class(&mut self, name: &str, inst: Instance, args: &[Val], st: &State) -> R<Option<Vec<Outcome>>> {
        if !self.ubidi || !name.ends_with("BidiClass::of") {
            return Ok(None);
        }
        let c = match self.num(&args[0])?.as_const() {
            Some(c) => c,
            None => match &args[0] {
                Val::Num(n) => st.get_const(n).ok_or("class of an unknown character")?,
                _ => bail!("class of what?"),
            },
        };
        let key = vec![cnum(c)];
        if let Some(m) = st.memo.iter().find(|m| m.0 == "bidi" && m.1 == key) {
            return Ok(Some(ret(st.clone(), m.2.clone())));
        }
        let ty = inst.fn_abi().map_err(|e| format!("{e:?}"))?.ret.ty;
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() else { bail!("BidiClass is not an enum") };
        self.class_names = d.variants_iter().map(|v| v.name().to_string()).collect();
        let mut set = ISet::empty();
        for (i, v) in d.variants_iter().enumerate() {
            if v.name() != "FirstStrongIsolate" || (0x800..0x10000).contains(&c) {
                set = set.union(&ISet::range(i as I, i as I));
            }
        }
        let mut s = st.clone();
        let n = s.fresh(set);
        let v = Val::Enum(n, Rc::new(vec![]));
        Rc::make_mut(&mut s.memo).push(("bidi", key, v.clone()));
        Ok(Some(ret(s, v)))
    }
    /// the normalization data as functions of which nothing is known but that they are functions
    pub fn uninterpreted(&mut self, name: &str, args: &[Val], st: &State) -> Option<Vec<Outcome>> {
        let key: &'static str = if name.ends_with("unic_ucd_normal::compose") {
            "compose"
        } else if name.ends_with("CanonicalCombiningClass::of") {
            "ccc"
        } else if name.ends_with("unic_ucd_normal::canonical_decomposition") {
            "canonical"
        } else if name.ends_with("unic_ucd_normal::compatibility_decomposition") {
            "compatibility"
        } else {
            return None;
        };
        if let Some(m) = st.memo.iter().find(|m| m.0 == key && m.1 == args) {
            return Some(ret(st.clone(), m.2.clone()));
        }
        if std::env::var("ABSINT_UF").is_ok() {
            eprintln!("uf {key} {args:?} in {:?}", st.memo.iter().map(|m| format!("{} {:?} -> {:?}", m.0, m.1, m.2)).collect::<Vec<_>>());
        }
        let any = || ISet::range(0x80, 0xabff).union(&ISet::range(0xd7a4, 0xd7ff)).union(&ISet::range(0xe000, 0x10ffff));
        let mut out = vec![];
        let mut put = |mut s: State, v: Val| {
            Rc::make_mut(&mut s.memo).push((key, args.to_vec(), v.clone()));
            out.extend(ret(s, v));
        };
        match key {
            "ccc" => {
                let top = self.uf.unwrap();
                for (lo, hi) in if top < 8 { (0..=top).map(|k| (k, k)).collect() } else { vec![(0, top)] } {
                    let mut s = st.clone();
                    let n = s.fresh(ISet::range(lo, hi));
                    put(s, Val::Agg(Rc::new(vec![num(n)])));
                }
            }
            "compose" => {
                put(st.clone(), none());
                let mut s = st.clone();
                let n = s.fresh(any());
                put(s, some(num(n)));
            }
            _ => {
                put(st.clone(), none());
                for k in 1..=3 {
                    let mut s = st.clone();
                    let cs: Vec<Val> = (0..k).map(|_| num(s.fresh(any()))).collect();
                    for c in &cs {
                        for f in ["canonical", "compatibility"] {
                            Rc::make_mut(&mut s.memo).push((f, vec![c.clone()], none()));
                        }
                    }
                    let h = s.alloc(Val::Agg(Rc::new(cs)));
                    put(s, some(Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![P::I(0)], off: 0, meta: Meta::Len(Num::C(k)) }))));
                }
            }
        }
        Some(out)
    }
    fn harness_fn(&mut self, name: &str) -> Option<FnDef> {
        rustc_public::local_crate().fn_defs().into_iter().find(|f| f.name() == name)
    }
    pub fn ptr_of(&self, v: &Val) -> R<Rc<Ptr>> {
        match v {
            Val::Ptr(p) => Ok(p.clone()),
            // newtype pointers (NonNull, Unique)
            Val::Agg(f) => {
                for x in f.iter() {
                    if let Ok(p) = self.ptr_of(x) {
                        return Ok(p);
                    }
                }
                bail!("no pointer in aggregate")
            }
            v => bail!("expected pointer, got {v:?}"),
        }
    }
    /// concrete bytes behind a &str / &[u8]
    pub fn bytes_of(&mut self, st: &State, v: &Val) -> R<Option<Vec<u8>>> {
        let p = self.ptr_of(v)?;
        let n = match &p.meta {
            Meta::Len(n) => match st.get_const(n) {
                Some(n) => n,
                None => return Ok(None),
            },
            _ => bail!("not a slice"),
        };
        let u8t = Ty::unsigned_ty(UintTy::U8);
        let mut out = vec![];
        for i in 0..n {
            let mut q = (*p).clone();
            q.meta = Meta::None;
            ptr_add(&mut q, i, 1);
            match self.read(st, &q, u8t)? {
                Val::Num(x) => match st.get_const(&x) {
                    Some(c) => out.push(c as u8),
                    None => return Ok(None),
                },
                _ => return Ok(None),
            }
        }
        Ok(Some(out))
    }
    pub fn generic_ty(&mut self, inst: Instance, i: usize) -> R<Ty> {
        let a = inst.args();
        let mut k = 0;
        for g in &a.0 {
            if let GenericArgKind::Type(t) = g {
                if k == i {
                    return Ok(*t);
                }
                k += 1;
            }
        }
        bail!("generic arg {i}")
    }

    pub fn summary(
        &mut self,
        inst: Instance,
        name: &str,
        args: &[Val],
        arg_tys: &[Ty],
        st: &State,
    ) -> R<Option<Vec<Outcome>>> {
        if inst.kind == InstanceKind::Intrinsic {
            let n = inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
            return self.intrinsic(inst, &n, args, arg_tys, st);
        }
        let st1 = || st.clone();
        if let Some(m) = container(name) {
            if let Some(o) = self.container(m, args, arg_tys, st)? {
                return Ok(Some(o));
            }
        }
        // collecting and extending: the loop over `next` they are documented to be
        if (name.contains("::extend::<") || name.ends_with("::extend") || name.ends_with("::from_iter")) && (name.starts_with("<std::vec::Vec<") || name.starts_with("<std::string::String as")) {
            let tys: Vec<Ty> = inst.args().0.iter().filter_map(|g| g.ty().copied()).collect();
            let k = self.kind(*tys.last().ok_or("iterator type")?);
            let string = name.starts_with("<std::string");
            let h = match (string, name.ends_with("from_iter")) {
                (false, false) => "harness::lazy::extend_vec",
                (false, true) => "harness::lazy::collect_vec",
                (true, false) => "harness::lazy::extend_string",
                (true, true) => "harness::lazy::collect_string",
            };
            let of = match name.split(" as ").nth(1) {
                Some(t) if t.contains("<&") => None,
                _ => self.harness_fn(h),
            };
            if let (Some(d), false) = (of, matches!(&*k, TyKind::RigidTy(RigidTy::Str))) {
                let mut a = vec![];
                if !string {
                    a.push(GenericArgKind::Type(tys[0]));
                }
                a.push(GenericArgKind::Type(*tys.last().unwrap()));
                let i2 = Instance::resolve(d, &GenericArgs(a)).map_err(|e| format!("{h}: {e:?}"))?;
                return Ok(Some(self.call(i2, args.to_vec(), arg_tys, st1())));
            }
        }
        match name {
            "core::char::convert::from_u32" | "core::char::from_u32" | "core::char::methods::<impl char>::from_u32"
            | "std::char::from_u32" | "std::char::methods::<impl char>::from_u32" => {
                let n = self.num(&args[0])?;
                let mut out = vec![];
                for (s, ok) in self.char_split(st1(), &n) {
                    out.extend(ret(s, if ok { some(num(n.clone())) } else { none() }));
                }
                Ok(Some(out))
            }
            "core::char::convert::from_u32_unchecked"
            | "core::char::from_u32_unchecked"
            | "std::char::from_u32_unchecked"
            | "std::char::methods::<impl char>::from_u32_unchecked"
            | "core::char::methods::<impl char>::from_u32_unchecked" => {
                let n = self.num(&args[0])?;
                let mut out = vec![];
                for (s, ok) in self.char_split(st1(), &n) {
                    if ok {
                        out.extend(ret(s, num(n.clone())));
                    } else {
                        out.push(Outcome {
                            st: s,
                            out: Out::Panic("UB: from_u32_unchecked on a non-scalar value".into()),
                        });
                    }
                }
                Ok(Some(out))
            }
            "std::boxed::Box::<T>::new_uninit" | "alloc::boxed::Box::<T>::new_uninit" => {
                let mut s = st1();
                let h = s.alloc(Val::Undef);
                let p = Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![], off: 0, meta: Meta::None }));
                let nest = |v| Val::Agg(Rc::new(vec![v]));
                Ok(Some(ret(s, Val::Agg(Rc::new(vec![nest(nest(p)), unit()])))))
            }
            "std::boxed::box_assume_init_into_vec_unsafe" | "alloc::boxed::box_assume_init_into_vec_unsafe" => {
                let p = self.ptr_of(&args[0])?;
                let h = match p.base {
                    Base::Heap(h) => h,
                    _ => bail!("a box elsewhere"),
                };
                let n = match inst.args().0.iter().find_map(|g| if let GenericArgKind::Const(c) = g { c.eval_target_usize().ok() } else { None }) {
                    Some(n) => n as usize,
                    None => bail!("length of a box"),
                };
                let mut v = st.heap[h].clone();
                // MaybeUninit { value: ManuallyDrop { value: [T; N] } }
                let t = self.generic_ty(inst, 0)?;
                let _ = t;
                for _ in 0..6 {
                    match &v {
                        Val::Agg(a) if a.len() == n && !(n == 1 && matches!(&a[0], Val::Agg(_))) => break,
                        Val::Agg(a) if a.len() == 1 => v = a[0].clone(),
                        Val::Agg(a) if a.len() == 2 && matches!(a[0], Val::Undef) => v = a[1].clone(),
                        v => bail!("contents of a box: {v:?}"),
                    }
                }
                match v {
                    Val::Agg(a) if a.len() == n => Ok(Some(ret(st1(), Val::Nat(Rc::new(Nat::Vec(a.to_vec())))))),
                    v => bail!("contents of a box: {v:?}"),
                }
            }
            "core::slice::<impl [T]>::reverse" | "core::slice::<impl [T]>::swap" => {
                let p = self.ptr_of(&args[0])?;
                let n = match &p.meta {
                    Meta::Len(n) => st.get_const(n).ok_or("reverse: length")?,
                    _ => bail!("not a slice"),
                };
                let t = self.generic_ty(inst, 0)?;
                let pairs: Vec<(I, I)> = if name.ends_with("swap") {
                    let i = st.get_const(&self.num(&args[1])?).ok_or("swap: index")?;
                    let j = st.get_const(&self.num(&args[2])?).ok_or("swap: index")?;
                    if i >= n || j >= n {
                        return Ok(Some(vec![Outcome { st: st1(), out: Out::Panic("swap out of bounds".into()) }]));
                    }
                    vec![(i, j)]
                } else {
                    (0..n / 2).map(|i| (i, n - 1 - i)).collect()
                };
                let mut s = st1();
                for (i, j) in pairs {
                    let at = |k: I| {
                        let mut q = (*p).clone();
                        q.meta = Meta::None;
                        ptr_add(&mut q, k, 1);
                        q
                    };
                    let x = self.read(&s, &at(i), t)?;
                    let y = self.read(&s, &at(j), t)?;
                    self.write(&mut s, &at(i), y)?;
                    self.write(&mut s, &at(j), x)?;
                }
                Ok(Some(ret(s, unit())))
            }
            "core::slice::<impl [T]>::binary_search_by" => {
                self.fix.native += 1;
                let r = self.binary_search_by(inst, args, st);
                self.fix.native -= 1;
                r
            }
            "harness::lazy::uninterpreted" => {
                self.uf = Some(self.num(&args[0])?.as_const().ok_or("classes")?);
                Ok(Some(ret(st1(), unit())))
            }
            "harness::lazy::classes" => {
                self.ubidi = true;
                Ok(Some(ret(st1(), unit())))
            }
            "harness::lazy::idna" => {
                self.idna = Some(self.num(&args[0])?.as_const().ok_or("mode")?);
                self.mappings = match &args[1] {
                    Val::Agg(v) => v.to_vec(),
                    _ => bail!("mappings"),
                };
                Ok(Some(ret(st1(), unit())))
            }
            "harness::lazy::word" => {
                let mut s = st1();
                let len = s.fresh(ISet::range(0, crate::text::BIG));
                let a = Rc::make_mut(&mut s.atoms);
                a.push(Atom::default());
                let k = a.len() - 1;
                Ok(Some(ret(s, Val::Ptr(Rc::new(Ptr { base: Base::Atom(k), path: vec![P::I(0)], off: 0, meta: Meta::Len(len) })))))
            }
            _ if !st.atoms.is_empty() && (name.ends_with("::eq_ignore_ascii_case") || name.ends_with("::eq") || name.ends_with("::ne")) && args.len() == 2 && self.atom_arg(st, arg_tys, args).is_some() => {
                let (k, i) = self.atom_arg(st, arg_tys, args).unwrap();
                let lp = self.thin(st, arg_tys[1 - i], &args[1 - i])?;
                let lit = match self.bytes_of(st, &lp)? {
                    Some(b) => b,
                    None => bail!("comparison of an unknown string with an unknown string"),
                };
                let ap = self.thin(st, arg_tys[i], &args[i])?;
                let len = match &self.ptr_of(&ap)?.meta {
                    Meta::Len(n) => n.clone(),
                    _ => bail!("atom"),
                };
                let ci = name.ends_with("case");
                let flip = name.ends_with("::ne");
                let mut out = vec![];
                for (s, same) in self.cmp_split(st1(), BinOp::Eq, &len, &Num::C(lit.len() as I)) {
                    if !same {
                        out.extend(ret(s, cnum(flip as I)));
                        continue;
                    }
                    let low = lit.to_ascii_lowercase();
                    let a = s.atoms[k].clone();
                    let known = if let Some(x) = &a.eq {
                        Some(if ci { x.eq_ignore_ascii_case(&lit) } else { *x == lit })
                    } else if ci && a.ci.as_ref() == Some(&low) {
                        Some(true)
                    } else if a.ci.as_ref().map_or(false, |x| *x != low) || a.nci.contains(&low) || !ci && a.ne.contains(&lit) {
                        Some(false)
                    } else {
                        None
                    };
                    if let Some(b) = known {
                        out.extend(ret(s, cnum((b != flip) as I)));
                        continue;
                    }
                    for b in [true, false] {
                        let mut s = s.clone();
                        let a = &mut Rc::make_mut(&mut s.atoms)[k];
                        match (ci, b) {
                            (true, true) => a.ci = Some(low.clone()),
                            (true, false) => a.nci.push(low.clone()),
                            (false, true) => a.eq = Some(lit.clone()),
                            (false, false) => a.ne.push(lit.clone()),
                        }
                        out.extend(ret(s, cnum((b != flip) as I)));
                    }
                }
                Ok(Some(out))
            }
            "core::str::<impl str>::eq_ignore_ascii_case" | "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case" => {
                match (self.bytes_of(st, &args[0])?, self.bytes_of(st, &args[1])?) {
                    (Some(a), Some(b)) => Ok(Some(ret(st1(), cnum(a.eq_ignore_ascii_case(&b) as I)))),
                    _ => Ok(None),
                }
            }
            "<str as core::cmp::PartialEq>::eq" | "core::str::traits::<impl core::cmp::PartialEq for str>::eq" => {
                match (self.bytes_of(st, &args[0])?, self.bytes_of(st, &args[1])?) {
                    (Some(a), Some(b)) => Ok(Some(ret(st1(), cnum((a == b) as I)))),
                    _ => Ok(None),
                }
            }
            "core::mem::swap" => {
                let t = self.generic_ty(inst, 0)?;
                let (p, q) = (self.ptr_of(&args[0])?, self.ptr_of(&args[1])?);
                let (a, b) = (self.read(st, &p, t)?, self.read(st, &q, t)?);
                let mut s = st1();
                self.write(&mut s, &p, b)?;
                self.write(&mut s, &q, a)?;
                Ok(Some(ret(s, unit())))
            }
            "core::mem::replace" => {
                let t = self.generic_ty(inst, 0)?;
                let p = self.ptr_of(&args[0])?;
                let a = self.read(st, &p, t)?;
                let mut s = st1();
                self.write(&mut s, &p, args[1].clone())?;
                Ok(Some(ret(s, a)))
            }
            "core::ptr::read" | "core::ptr::read_unaligned" | "core::ptr::read_volatile" => {
                let t = self.generic_ty(inst, 0)?;
                let p = self.ptr_of(&args[0])?;
                let a = self.read(st, &p, t)?;
                Ok(Some(ret(st1(), a)))
            }
            "core::ptr::write" => {
                let p = self.ptr_of(&args[0])?;
                let mut s = st1();
                self.write(&mut s, &p, args[1].clone())?;
                Ok(Some(ret(s, unit())))
            }
            // output sink of the harness: the text written so far is part of the state
            "harness::sink::emit_str" | "harness::sink::emit_char" => {
                let mut s = st1();
                let tag = if name.ends_with("str") { "s" } else { "c" };
                // resolve the text now: the buffer behind it may be reused
                let a = if tag == "s" {
                    match self.bytes_of(st, &args[0])? {
                        Some(b) => {
                            let items = b.iter().map(|x| cnum(*x as I)).collect::<Vec<_>>();
                            let n = items.len() as I;
                            let h = s.alloc(Val::Agg(Rc::new(items)));
                            Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![P::I(0)], off: 0, meta: Meta::Len(Num::C(n)) }))
                        }
                        None => bail!("symbolic text written"),
                    }
                } else {
                    args[0].clone()
                };
                Rc::make_mut(&mut s.events).push(Event { tag, site: "".into(), args: vec![a] });
                Ok(Some(ret(s, unit())))
            }
            _ if (name.starts_with("core::fmt::") || name.starts_with("std::fmt::")) && name.ends_with("::as_str") && name.contains("Arguments") => {
                let f = match &args[0] {
                    Val::Ptr(p) => {
                        let t = self.pointee(arg_tys[0]).ok_or("as_str")?;
                        self.read(st, p, t)?
                    }
                    v => v.clone(),
                };
                let f = match &f {
                    Val::Agg(f) => f.clone(),
                    _ => bail!("fmt::Arguments"),
                };
                let (t, a) = (self.ptr_of(&f[0])?, self.ptr_of(&f[1])?);
                if a.base == Base::Dangling && a.off & 1 == 1 {
                    let mut q = (*t).clone();
                    q.meta = Meta::Len(Num::C(a.off >> 1));
                    return Ok(Some(ret(st1(), some(Val::Ptr(Rc::new(q))))));
                }
                Ok(Some(ret(st1(), none())))
            }
            // integer formatting of a symbolic number: the text stays a token
            _ if (name.starts_with("core::fmt::num::") || name.starts_with("std::fmt::num::")) && name.ends_with("::fmt") && (name.contains("<impl core::fmt::") || name.contains("<impl std::fmt::")) => {
                let body = self.body(inst).ok_or("fmt body")?;
                let (t, ft) = match (self.pointee(body.local_tys[1]), self.pointee(body.local_tys[2])) {
                    (Some(t), Some(f)) => (t, f),
                    _ => bail!("fmt signature"),
                };
                let p = self.ptr_of(&args[0])?;
                let v = self.read(st, &p, t)?;
                let n = self.num(&v)?;
                if st.get_const(&n).is_some() {
                    return Ok(None);
                }
                let tag = if name.contains("Display for") {
                    "d"
                } else if name.contains("UpperHex for") {
                    "X"
                } else if name.contains("LowerHex for") {
                    "x"
                } else {
                    bail!("symbolic number formatted by {name}")
                };
                let fp = self.ptr_of(&args[1])?;
                let fm = self.read(st, &fp, ft)?;
                let mut buf = None;
                let mut opts = vec![];
                fn walk(v: &Val, buf: &mut Option<Rc<Ptr>>, o: &mut Vec<Val>) {
                    match v {
                        Val::Agg(f) => f.iter().for_each(|x| walk(x, buf, o)),
                        Val::Ptr(p) => *buf = Some(p.clone()),
                        v => o.push(v.clone()),
                    }
                }
                walk(&fm, &mut buf, &mut opts);
                let ok = match buf {
                    Some(b) => match &b.meta {
                        Meta::Vt(t) => format!("{t}").ends_with("sink::Sink"),
                        _ => false,
                    },
                    None => false,
                };
                if !ok {
                    bail!("symbolic number formatted into an unknown writer");
                }
                let mut s = st1();
                let mut a = vec![v];
                a.extend(opts);
                Rc::make_mut(&mut s.events).push(Event { tag, site: "".into(), args: a });
                Ok(Some(ret(s, cenum(0, vec![unit()]))))
            }
            _ => {
                if name.ends_with("::drop_in_place") || name == "core::mem::drop" || name == "core::mem::forget" {
                    return Ok(Some(ret(st1(), unit())));
                }
                Ok(None)
            }
        }
    }

    /// the &str behind a & or && str
    fn thin(&mut self, st: &State, ty: Ty, v: &Val) -> R<Val> {
        if let Val::Ptr(p) = v {
            if matches!(p.meta, Meta::None) {
                let t = self.pointee(ty).ok_or("pointee")?;
                return self.read(st, p, t);
            }
        }
        Ok(v.clone())
    }
    fn atom_arg(&mut self, st: &State, tys: &[Ty], args: &[Val]) -> Option<(usize, usize)> {
        for i in 0..2 {
            if let Ok(Val::Ptr(p)) = self.thin(st, tys[i], &args[i]) {
                if let Base::Atom(k) = p.base {
                    return Some((k, i));
                }
            }
        }
        None
    }

    /// split on "is a Unicode scalar value"
    pub fn char_split(&mut self, st: State, n: &Num) -> Vec<(State, bool)> {
        let mut out = vec![];
        for (s, le) in self.cmp_split(st, BinOp::Le, n, &Num::C(0x10FFFF)) {
            if !le {
                out.push((s, false));
                continue;
            }
            for (s, lt) in self.cmp_split(s, BinOp::Lt, n, &Num::C(0xD800)) {
                if lt {
                    out.push((s, true));
                    continue;
                }
                for (s, ge) in self.cmp_split(s, BinOp::Ge, n, &Num::C(0xE000)) {
                    out.push((s, ge));
                }
            }
        }
        out
    }

    /// `slice.binary_search_by(f)`: when `f` classifies the elements monotonically (the documented
    /// precondition) for every value of the one symbol it depends on, the result is determined by
    /// the contract. Otherwise the MIR of the function itself is interpreted.
    fn binary_search_by(&mut self, inst: Instance, args: &[Val], st: &State) -> R<Option<Vec<Outcome>>> {
        let elem = self.generic_ty(inst, 0)?;
        let clos_ty = match inst.args().0.iter().filter_map(|g| g.ty().copied()).nth(1) {
            Some(t) => t,
            None => return Ok(None),
        };
        let p = self.ptr_of(&args[0])?;
        let n = match &p.meta {
            Meta::Len(n) => match st.get_const(n) {
                Some(n) => n,
                None => return Ok(None),
            },
            _ => return Ok(None),
        };
        if n < 8 {
            return Ok(None);
        }
        let esz = self.size_of(elem)?;
        let (cinst, self_ref) = match &*self.kind(clos_ty) {
            TyKind::RigidTy(RigidTy::Closure(d, a)) => (
                Instance::resolve_closure(*d, a, ClosureKind::FnMut).map_err(|e| format!("{e:?}"))?,
                true,
            ),
            _ => return Ok(None),
        };
        let mut base = st.clone();
        let h = base.alloc(args[1].clone());
        let clos_ptr = Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![], off: 0, meta: Meta::None }));
        let _ = self_ref;
        let mut the_sym: Option<Sym> = None;
        // per element: (less, equal, greater)
        let mut parts: Vec<[ISet; 3]> = vec![];
        let body = match self.body(cinst) {
            Some(b) => b,
            None => return Ok(None),
        };
        let self_by_ref = self.pointee(body.local_tys[1]).is_some();
        // probe: when nothing splits, the key is (as good as) concrete and the MIR is interpreted
        let mut split = false;
        for i in [0, n / 4, n / 2, 3 * n / 4, n - 1] {
            let mut q = (*p).clone();
            q.meta = Meta::None;
            ptr_add(&mut q, i, esz);
            let eref = Val::Ptr(Rc::new(q));
            let a0 = if self_by_ref { clos_ptr.clone() } else { args[1].clone() };
            split |= self.call(cinst, vec![a0, eref], &[body.local_tys[1], body.local_tys[2]], base.clone()).len() != 1;
        }
        if !split {
            return Ok(None);
        }
        for i in 0..n {
            let mut q = (*p).clone();
            q.meta = Meta::None;
            ptr_add(&mut q, i, esz);
            let eref = Val::Ptr(Rc::new(q));
            let a0 = if self_by_ref { clos_ptr.clone() } else { args[1].clone() };
            let outs = self.call(cinst, vec![a0, eref], &[body.local_tys[1], body.local_tys[2]], base.clone());
            let mut acc: [Vec<(I, I)>; 3] = [vec![], vec![], vec![]];
            for o in outs {
                let v = match &o.out {
                    Out::Ret(Val::Enum(Num::C(v), _)) => *v as usize,
                    _ => return Ok(None),
                };
                if o.st.syms.len() != base.syms.len() || o.st.cons != base.cons || o.st.heap != base.heap {
                    return Ok(None);
                }
                let mut d = None;
                for k in 0..base.syms.len() {
                    if o.st.syms[k] != base.syms[k] {
                        if d.is_some() {
                            return Ok(None);
                        }
                        d = Some(k as Sym);
                    }
                }
                match (d, the_sym) {
                    (Some(x), None) => the_sym = Some(x),
                    (Some(x), Some(y)) if x != y => return Ok(None),
                    _ => {}
                }
                match d {
                    Some(s) => acc[v].extend(o.st.set(s).0.iter().copied()),
                    None => {
                        // whole partition: mark with full range, fixed up below
                        acc[v].push((I::MIN / 4, I::MAX / 4));
                    }
                }
            }
            parts.push(acc.map(ISet::from_vec));
        }
        let s = match the_sym {
            Some(s) => s,
            None => return Ok(None),
        };
        let full = base.set(s).clone();
        for p in parts.iter_mut() {
            for k in 0..3 {
                p[k] = p[k].intersect(&full);
            }
        }
        // monotonicity: Less.. Equal.. Greater..
        for w in parts.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            // an element greater than the target is followed only by greater ones
            if !a[2].minus(&b[2]).is_empty() {
                return Ok(None);
            }
            if !b[0].minus(&a[0]).is_empty() {
                return Ok(None);
            }
            if !a[1].intersect(&b[1]).is_empty() {
                return Ok(None);
            }
        }
        self.oblig += n as u64;
        let mut out = vec![];
        for i in 0..=n as usize {
            let gap = if i == 0 {
                parts[0][2].clone()
            } else if i == n as usize {
                parts[i - 1][0].clone()
            } else {
                parts[i - 1][0].intersect(&parts[i][2])
            };
            if !gap.is_empty() {
                let mut s2 = st.clone();
                s2.set_sym(s, gap);
                out.push(Outcome { st: s2, out: Out::Ret(cenum(1, vec![cnum(i as I)])) });
            }
            if i < n as usize && !parts[i][1].is_empty() {
                let mut s2 = st.clone();
                s2.set_sym(s, parts[i][1].clone());
                out.push(Outcome { st: s2, out: Out::Ret(cenum(0, vec![cnum(i as I)])) });
            }
        }
        Ok(Some(out))
    }

    fn intrinsic(
        &mut self,
        inst: Instance,
        n: &str,
        args: &[Val],
        arg_tys: &[Ty],
        st: &State,
    ) -> R<Option<Vec<Outcome>>> {
        let st1 = || st.clone();
        let v = match n {
            "size_of" => {
                let t = self.generic_ty(inst, 0)?;
                cnum(self.size_of(t)? as I)
            }
            "align_of" | "min_align_of" => {
                let t = self.generic_ty(inst, 0)?;
                cnum(self.layout(t)?.abi_align as I)
            }
            "needs_drop" => cnum(0),
            "likely" | "unlikely" | "black_box" => args[0].clone(),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume"
            | "forget" | "drop_in_place" => unit(),
            "is_val_statically_known" => cnum(0),
            "ub_checks" | "contract_checks" | "overflow_checks" => cnum(0),
            "discriminant_value" => {
                let t = self.generic_ty(inst, 0)?;
                let p = self.ptr_of(&args[0])?;
                let v = self.read(st, &p, t)?;
                num(self.discriminant(st, &v, t)?)
            }
            "const_eval_select" => {
                // (args tuple, const fn, runtime fn)
                let t = arg_tys[2];
                let inst2 = match &*self.kind(t) {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.resolve(*d, a)?,
                    _ => bail!("const_eval_select"),
                };
                let (vals, tys) = match &args[0] {
                    Val::Agg(f) => ((**f).clone(), self.fields(arg_tys[0], 0)?.to_vec()),
                    _ => bail!("const_eval_select args"),
                };
                return Ok(Some(self.call(inst2, vals, &tys, st1())));
            }
            "transmute" | "transmute_unchecked" => {
                let (f, t) = (self.generic_ty(inst, 0)?, self.generic_ty(inst, 1)?);
                self.transmute(st, args[0].clone(), f, t)?
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
            | "exact_div" | "unchecked_div" | "unchecked_rem" | "saturating_add" | "saturating_sub" | "add_with_overflow"
            | "sub_with_overflow" | "mul_with_overflow" | "unchecked_shl" | "unchecked_shr" => {
                let t = self.generic_ty(inst, 0)?;
                let it = self.int_ty(t).ok_or("int type")?;
                let (a, b) = (self.num(&args[0])?, self.num(&args[1])?);
                let op = if n.contains("add") {
                    Op::Add
                } else if n.contains("sub") {
                    Op::Sub
                } else if n.contains("mul") {
                    Op::Mul
                } else if n.contains("div") {
                    Op::Div
                } else if n.contains("shl") {
                    Op::Shl
                } else if n.contains("shr") {
                    Op::Shr
                } else {
                    Op::Rem
                };
                let mut s = st1();
                let r = self.arith(&mut s, op, &a, &b)?;
                let mut out = vec![];
                if n.starts_with("saturating") {
                    for (s2, ge) in self.cmp_split(s, BinOp::Ge, &r, &Num::C(it.min())) {
                        if !ge {
                            out.extend(ret(s2, cnum(it.min())));
                            continue;
                        }
                        for (s3, le) in self.cmp_split(s2, BinOp::Le, &r, &Num::C(it.max())) {
                            out.extend(ret(s3, if le { num(r.clone()) } else { cnum(it.max()) }));
                        }
                    }
                    return Ok(Some(out));
                }
                for (s2, v, ov) in self.wrap_to(s, r, it) {
                    if n.ends_with("with_overflow") {
                        out.extend(ret(s2, Val::Agg(Rc::new(vec![num(v), cnum(ov as I)]))));
                    } else {
                        out.extend(ret(s2, num(v)));
                    }
                }
                return Ok(Some(out));
            }
            "three_way_compare" => {
                let (a, b) = (self.num(&args[0])?, self.num(&args[1])?);
                let mut out = vec![];
                for (s, lt) in self.cmp_split(st1(), BinOp::Lt, &a, &b) {
                    if lt {
                        out.extend(ret(s, cenum(0, vec![])));
                        continue;
                    }
                    for (s, eq) in self.cmp_split(s, BinOp::Eq, &a, &b) {
                        out.extend(ret(s, cenum(if eq { 1 } else { 2 }, vec![])));
                    }
                }
                return Ok(Some(out));
            }
            "select_unpredictable" => {
                let c = self.num(&args[0])?;
                let mut out = vec![];
                for (s, r) in self.cmp_split(st1(), BinOp::Ne, &c, &Num::C(0)) {
                    out.extend(ret(s, if r { args[1].clone() } else { args[2].clone() }));
                }
                return Ok(Some(out));
            }
            "arith_offset" | "offset" => {
                let p = self.ptr_of(&args[0])?;
                let t = self.pointee(arg_tys[0]).ok_or("offset")?;
                let sz = self.size_of(t)?;
                let i = self.num(&args[1])?;
                if let Base::Text(_) = p.base {
                    return Ok(Some(ret(st1(), crate::text::text_add(&p, &i)?)));
                }
                let i = st.get_const(&i).ok_or("symbolic offset")?;
                let mut q = (*p).clone();
                ptr_add(&mut q, i, sz);
                Val::Ptr(Rc::new(q))
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let (p, q) = (self.ptr_of(&args[0])?, self.ptr_of(&args[1])?);
                let t = self.pointee(arg_tys[0]).ok_or("offset")?;
                let sz = self.size_of(t)?.max(1) as I;
                if p.base != q.base {
                    bail!("offset_from between objects");
                }
                match p.base {
                    Base::Text(_) => num(crate::text::add_lin(&crate::text::text_pos(&p)?, &crate::text::text_pos(&q)?, -1)?),
                    Base::Const(_) | Base::Dangling => cnum((p.off - q.off) / sz),
                    _ => {
                        let last = |x: &Ptr| match x.path.last() {
                            Some(P::I(i)) => *i,
                            _ => 0,
                        };
                        cnum(last(&p) - last(&q))
                    }
                }
            }
            "ptr_metadata" => {
                let p = self.ptr_of(&args[0])?;
                match &p.meta {
                    Meta::Len(n) => num(n.clone()),
                    Meta::None => unit(),
                    _ => bail!("metadata"),
                }
            }
            "aggregate_raw_ptr" => bail!("aggregate_raw_ptr"),
            "read_via_copy" | "volatile_load" => {
                let t = self.generic_ty(inst, 0)?;
                let p = self.ptr_of(&args[0])?;
                self.read(st, &p, t)?
            }
            "write_via_move" => {
                let p = self.ptr_of(&args[0])?;
                let mut s = st1();
                self.write(&mut s, &p, args[1].clone())?;
                return Ok(Some(ret(s, unit())));
            }
            "compare_bytes" => {
                let c = self.num(&args[2])?;
                let c = st.get_const(&c).ok_or("symbolic memcmp")?;
                let u8t = Ty::unsigned_ty(UintTy::U8);
                let (p, q) = (self.ptr_of(&args[0])?, self.ptr_of(&args[1])?);
                let mut states = vec![st1()];
                let mut out = vec![];
                for i in 0..c {
                    let mut next = vec![];
                    for s in states {
                        let (mut a, mut b) = ((*p).clone(), (*q).clone());
                        ptr_add(&mut a, i, 1);
                        ptr_add(&mut b, i, 1);
                        let x = self.read(&s, &a, u8t)?;
                        let y = self.read(&s, &b, u8t)?;
                        let (x, y) = (self.num(&x)?, self.num(&y)?);
                        for (s2, lt) in self.cmp_split(s, BinOp::Lt, &x, &y) {
                            if lt {
                                out.extend(ret(s2, cnum(-1)));
                                continue;
                            }
                            for (s3, eq) in self.cmp_split(s2, BinOp::Eq, &x, &y) {
                                if eq { next.push(s3) } else { out.extend(ret(s3, cnum(1))) }
                            }
                        }
                    }
                    states = next;
                }
                for s in states {
                    out.extend(ret(s, cnum(0)));
                }
                return Ok(Some(out));
            }
            "raw_eq" => {
                let t = self.generic_ty(inst, 0)?;
                let (p, q) = (self.ptr_of(&args[0])?, self.ptr_of(&args[1])?);
                let (a, b) = (self.read(st, &p, t)?, self.read(st, &q, t)?);
                if a == b && !val_symbolic(&a) {
                    cnum(1)
                } else if !val_symbolic(&a) && !val_symbolic(&b) {
                    cnum(0)
                } else {
                    bail!("raw_eq on symbolic values")
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "rotate_left" | "rotate_right" | "ctlz_nonzero" | "cttz_nonzero" => {
                let t = self.generic_ty(inst, 0)?;
                let it = self.int_ty(t).ok_or("int type")?;
                let a = self.num(&args[0])?;
                match st.get_const(&a) {
                    Some(c) => {
                        let m = (1u128 << it.bits) - 1;
                        let u = c as u128 & m;
                        cnum(match n {
                            "ctpop" => u.count_ones() as I,
                            "ctlz" | "ctlz_nonzero" => (u.leading_zeros() - (128 - it.bits)) as I,
                            "cttz" | "cttz_nonzero" => {
                                if u == 0 { it.bits as I } else { u.trailing_zeros() as I }
                            }
                            _ => bail!("intrinsic {n}"),
                        })
                    }
                    None if n.starts_with("ctlz") && !it.signed => {
                        // one case per bit length
                        let mut out = vec![];
                        for (s, z) in self.cmp_split(st1(), BinOp::Eq, &a, &Num::C(0)) {
                            if z {
                                out.extend(ret(s, cnum(it.bits as I)));
                                continue;
                            }
                            let mut rest = vec![s];
                            for k in (0..it.bits).rev() {
                                let mut next = vec![];
                                for s in rest {
                                    for (s, ge) in self.cmp_split(s, BinOp::Ge, &a, &Num::C(1 << k)) {
                                        if ge { out.extend(ret(s, cnum((it.bits - 1 - k) as I))) } else { next.push(s) }
                                    }
                                }
                                rest = next;
                            }
                        }
                        return Ok(Some(out));
                    }
                    None => {
                        let mut out = vec![];
                        for s in self.enumerate(st, &a, 4096)? {
                            match self.intrinsic(inst, n, args, arg_tys, &s)? {
                                Some(o) => out.extend(o),
                                None => return Ok(None),
                            }
                        }
                        return Ok(Some(out));
                    }
                }
            }
            "saturating_add_" => unreachable!(),
            "type_name" | "type_id" | "caller_location" => bail!("intrinsic {n}"),
            "abort" => {
                return Ok(Some(vec![Outcome { st: st1(), out: Out::Panic("abort".into()) }]));
            }
            "unreachable" => return Ok(Some(vec![])),
            _ => {
                if inst.has_body() {
                    return Ok(None);
                }
                bail!("intrinsic {n}")
            }
        };
        Ok(Some(ret(st1(), v)))
    }
}

pub fn val_symbolic(v: &Val) -> bool {
    match v {
        Val::Num(Num::C(_)) => false,
        Val::Num(_) => true,
        Val::Enum(n, f) => n.as_const().is_none() || f.iter().any(val_symbolic),
        Val::Agg(f) => f.iter().any(val_symbolic),
        Val::Ptr(p) => matches!(&p.meta, Meta::Len(n) if n.as_const().is_none()),
        Val::Nat(n) => match &**n {
            Nat::Vec(f) => f.iter().any(val_symbolic),
            _ => true,
        },
        _ => false,
    }
}
