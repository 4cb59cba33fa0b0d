//! Strings with a known number of characters: `String` as the list of its characters, and the `str`
//! operations on such texts (and on constants) by their documented contract.
use crate::interp::*;
use crate::num::*;
use crate::summaries::*;
use crate::text::*;
use crate::val::*;
use rustc_public::mir::BinOp;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

fn nat(v: Vec<Val>) -> Val {
    Val::Nat(Rc::new(Nat::Vec(v)))
}
/// the operation on String a name stands for
fn string_op(name: &str) -> Option<&str> {
    for p in ["std::string::String::", "alloc::string::String::"] {
        if let Some(m) = name.strip_prefix(p) {
            return Some(m);
        }
    }
    for p in ["<std::string::String as ", "<alloc::string::String as "] {
        if name.starts_with(p) {
            let m = name.rsplit("::").next()?;
            return match m {
                "deref" | "clone" | "default" | "drop" | "as_ref" | "borrow" => Some(m),
                "from" if name.contains("From<&str>") => Some("from_str"),
                "write_str" => Some("write_str"),
                "write_char" => Some("write_char"),
                "add" | "add_assign" => None,
                _ => None,
            };
        }
    }
    None
}
fn chars_ty(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Char))
}

impl Interp {
    /// the characters of a `&str` with a known number of them
    pub fn str_chars(&mut self, st: &State, v: &Val) -> R<Option<Vec<Val>>> {
        if let Some((t, pos, len)) = self.text_of(v) {
            let end = add_lin(&pos, &len, 1)?;
            let n = st.texts[t].items.len();
            let mut at = Num::C(0);
            let mut out = vec![];
            let mut on = false;
            for i in 0..=n {
                let here = |p: &Num| add_lin(p, &at, -1).map_or(false, |d| st.bounds(&d) == (0, 0));
                if here(&pos) {
                    on = true;
                }
                if here(&end) {
                    return Ok(if on { Some(out) } else { None });
                }
                if i < n {
                    let it = &st.texts[t].items[i];
                    match it.c {
                        Some(c) => {
                            if on {
                                out.push(Val::Num(Num::sym(c)));
                            }
                        }
                        None => {
                            if on {
                                return Ok(None);
                            }
                        }
                    }
                    at = add_lin(&at, &Num::sym(it.len), 1)?;
                }
            }
            return Ok(None);
        }
        if let Ok(p) = self.ptr_of(v) {
            if matches!(p.meta, Meta::Len(_)) {
                if let Some(b) = self.bytes_of(st, v)? {
                    let s = String::from_utf8(b).map_err(|_| "a str that is not UTF-8")?;
                    return Ok(Some(s.chars().map(|c| cnum(c as I)).collect()));
                }
            }
        }
        Ok(None)
    }
    /// a text of given characters; every character gets a known length
    pub fn text_from(&mut self, st: State, chars: &[Val]) -> R<Vec<(State, Val)>> {
        let mut done = vec![(st, vec![], 0 as I)];
        for c in chars {
            let n = self.num(c)?;
            let mut next = vec![];
            for (s, items, total) in done {
                let mut s: State = s;
                let (sym, set) = match n.lin() {
                    Some(l) if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 => (Some(l.t[0].0), s.set(l.t[0].0).clone()),
                    Some(l) if l.t.is_empty() => {
                        let y = s.fresh_sym(ISet::range(l.c, l.c));
                        (Some(y), ISet::range(l.c, l.c))
                    }
                    _ => (None, ISet::empty()),
                };
                let sym = sym.ok_or("a character that is not a symbol")?;
                for k in lens(&set).iter() {
                    let mut s2 = s.clone();
                    s2.set_sym(sym, set.intersect(&len_class(k)));
                    let len = s2.fresh_sym(ISet::range(k, k));
                    let mut it: Vec<Item> = Vec::clone(&items);
                    it.push(Item { c: Some(sym), set: ISet::empty(), len, input: false, rec: 0, right: false });
                    next.push((s2, it, total + k));
                }
            }
            done = next;
        }
        let mut out = vec![];
        for (mut s, items, total) in done {
            let addr = s.fresh_sym(ISet::range(1, BIG));
            let tx = Rc::make_mut(&mut s.texts);
            tx.push(Text {
                items,
                addr,
                mon: None,
                back: false,
                coarse: Rc::new(vec![]),
                groups: Rc::new(vec![]),
                sticky: ISet::empty(),
                exact: scalar(),
            });
            let t = tx.len() - 1;
            let p = Val::Ptr(Rc::new(Ptr { base: Base::Text(t), path: vec![P::N(Num::C(0))], off: 0, meta: Meta::Len(Num::C(total)) }));
            out.push((s, p));
        }
        Ok(out)
    }
    fn eq_char(&mut self, st: State, a: &Val, b: &Val) -> R<Vec<(State, bool)>> {
        let (a, b) = (self.num(a)?, self.num(b)?);
        Ok(self.cmp_split(st, BinOp::Eq, &a, &b))
    }
    fn string_val(&mut self, st: &State, p: &Ptr, ty: Ty) -> R<Option<Vec<Val>>> {
        Ok(match self.read(st, p, ty)? {
            Val::Nat(n) => match &*n {
                Nat::Vec(v) => Some(v.clone()),
                #[allow(unreachable_patterns)]
                _ => None,
            },
            _ => None,
        })
    }
    pub fn strings(&mut self, inst: Instance, name: &str, args: &[Val], arg_tys: &[Ty], st: &State) -> R<Option<Vec<Outcome>>> {
        if let Some(m) = string_op(name) {
            return self.string_call(m, args, arg_tys, st);
        }
        match name {
            "alloc::str::<impl std::borrow::ToOwned for str>::to_owned"
            | "std::str::<impl std::borrow::ToOwned for str>::to_owned"
            | "<str as std::string::ToString>::to_string"
            | "<str as alloc::string::ToString>::to_string"
            | "std::str::<impl str>::to_owned" => {
                if let Some(v) = self.str_chars(st, &args[0])? {
                    return Ok(Some(ret(st.clone(), nat(v))));
                }
            }
            "core::str::<impl str>::is_ascii" => {
                if st.texts.is_empty() {
                    return Ok(None);
                }
                if let Some(v) = self.str_chars(st, &args[0])? {
                    let mut out = vec![];
                    let mut work = vec![st.clone()];
                    for c in &v {
                        let n = self.num(c)?;
                        let mut next = vec![];
                        for s in work {
                            for (s, le) in self.cmp_split(s, BinOp::Le, &n, &Num::C(0x7f)) {
                                if le {
                                    next.push(s)
                                } else {
                                    out.extend(ret(s, cnum(0)))
                                }
                            }
                        }
                        work = next;
                    }
                    for s in work {
                        out.extend(ret(s, cnum(1)));
                    }
                    return Ok(Some(out));
                }
            }
            "core::str::<impl str>::starts_with" | "core::str::<impl str>::ends_with" | "core::str::<impl str>::strip_prefix" | "core::str::<impl str>::strip_suffix" | "core::str::<impl str>::contains" => {
                let strip = name.contains("strip_");
                if st.texts.is_empty() || strip && self.text_of(&args[0]).is_none() {
                    return Ok(None);
                }
                let hay = match self.str_chars(st, &args[0])? {
                    Some(v) => v,
                    None => return Ok(None),
                };
                let pat = match &args[1] {
                    Val::Num(n) if chars_ty(arg_tys[1]) => vec![Val::Num(n.clone())],
                    Val::Ptr(_) => match self.str_chars(st, &args[1])? {
                        Some(v) => v,
                        None => return Ok(None),
                    },
                    _ => return Ok(None),
                };
                let places: Vec<usize> = if pat.len() > hay.len() {
                    vec![]
                } else if name.ends_with("starts_with") || name.ends_with("strip_prefix") {
                    vec![0]
                } else if name.ends_with("ends_with") || name.ends_with("strip_suffix") {
                    vec![hay.len() - pat.len()]
                } else {
                    (0..=hay.len() - pat.len()).collect()
                };
                let mut out = vec![];
                let mut open = vec![st.clone()];
                for at in places {
                    let mut rest = vec![];
                    let mut work = open;
                    for (i, p) in pat.iter().enumerate() {
                        let mut next = vec![];
                        for s in work {
                            for (s, eq) in self.eq_char(s, &hay[at + i], p)? {
                                if eq {
                                    next.push(s)
                                } else {
                                    rest.push(s)
                                }
                            }
                        }
                        work = next;
                    }
                    for s in work {
                        if strip {
                            let (t, pos, len) = self.text_of(&args[0]).unwrap();
                            let mut k = 0;
                            for p in &pat {
                                let n = self.num(p)?;
                                k += match n.lin() {
                                    Some(l) if l.t.is_empty() => lens(&ISet::range(l.c, l.c)).min(),
                                    Some(l) if l.t.len() == 1 => lens(s.set(l.t[0].0)).single().ok_or("a character of unknown length")?,
                                    _ => bail!("character"),
                                };
                            }
                            let from = if name.ends_with("prefix") { add_lin(&pos, &Num::C(k), 1)? } else { pos };
                            let len = add_lin(&len, &Num::C(-k), 1)?;
                            out.extend(ret(s, some(Val::Ptr(Rc::new(Ptr { base: Base::Text(t), path: vec![P::N(from)], off: 0, meta: Meta::Len(len) })))));
                        } else {
                            out.extend(ret(s, cnum(1)));
                        }
                    }
                    open = rest;
                }
                for s in open {
                    out.extend(ret(s, if strip { none() } else { cnum(0) }));
                }
                return Ok(Some(out));
            }
            "core::str::<impl str>::split" => {
                if st.texts.is_empty() || !chars_ty(arg_tys[1]) {
                    return Ok(None);
                }
                let (t, pos, _) = match self.text_of(&args[0]) {
                    Some(x) => x,
                    None => return Ok(None),
                };
                let hay = match self.str_chars(st, &args[0])? {
                    Some(v) => v,
                    None => return Ok(None),
                };
                // the lengths of the pieces between separators
                let mut work: Vec<(State, Vec<(I, I)>, I, I)> = vec![(st.clone(), vec![], 0, 0)];
                for c in &hay {
                    let mut next = vec![];
                    for (s, pieces, from, at) in work {
                        for (s, eq) in self.eq_char(s, c, &args[1])? {
                            let n = self.num(c)?;
                            let k = match n.lin() {
                                Some(l) if l.t.len() == 1 => lens(s.set(l.t[0].0)).single().ok_or("a character of unknown length")?,
                                _ => bail!("character"),
                            };
                            if eq {
                                let mut p = pieces.clone();
                                p.push((from, at));
                                next.push((s, p, at + k, at + k));
                            } else {
                                next.push((s, pieces.clone(), from, at + k));
                            }
                        }
                    }
                    work = next;
                }
                let mut out = vec![];
                for (s, mut pieces, from, at) in work {
                    pieces.push((from, at));
                    let mut v = vec![];
                    for (a, b) in pieces {
                        v.push(Val::Ptr(Rc::new(Ptr { base: Base::Text(t), path: vec![P::N(add_lin(&pos, &Num::C(a), 1)?)], off: 0, meta: Meta::Len(Num::C(b - a)) })));
                    }
                    out.extend(ret(s, nat(v)));
                }
                return Ok(Some(out));
            }
            _ => {}
        }
        // iterators represented by what they still yield
        if (name.starts_with("<std::str::Split<") || name.starts_with("<core::str::Split<") || name.starts_with("<unic_normal::Recompositions<") || name.contains("Recompositions<I> as "))
            && (name.ends_with("Iterator>::next") || name.ends_with("Iterator>::next_back"))
        {
            let p = match &args[0] {
                Val::Ptr(p) => (**p).clone(),
                _ => return Ok(None),
            };
            let ty = self.pointee(arg_tys[0]).ok_or("iterator")?;
            if let Some(mut v) = self.string_val(st, &p, ty)? {
                let mut s = st.clone();
                if v.is_empty() {
                    return Ok(Some(ret(s, none())));
                }
                let x = if name.ends_with("back") { v.pop().unwrap() } else { v.remove(0) };
                self.write(&mut s, &p, nat(v))?;
                return Ok(Some(ret(s, some(x))));
            }
        }
        let _ = inst;
        Ok(None)
    }
    fn string_call(&mut self, m: &str, args: &[Val], arg_tys: &[Ty], st: &State) -> R<Option<Vec<Outcome>>> {
        let mut s = st.clone();
        match m {
            "new" | "default" | "with_capacity" => return Ok(Some(ret(s, nat(vec![])))),
            "drop" => return Ok(Some(ret(s, unit()))),
            "from_str" => {
                return Ok(match self.str_chars(st, &args[0])? {
                    Some(v) => Some(ret(s, nat(v))),
                    None => None,
                })
            }
            "from_utf8_unchecked" => {
                if let Val::Nat(n) = &args[0] {
                    if let Nat::Vec(v) = &**n {
                        for b in v {
                            let n = self.num(b)?;
                            if st.bounds(&n).1 > 0x7f {
                                return Ok(Some(vec![Outcome { st: s, out: Out::Panic("UB: String::from_utf8_unchecked of a byte that is not ASCII".into()) }]));
                            }
                        }
                        return Ok(Some(ret(s, args[0].clone())));
                    }
                }
                return Ok(None);
            }
            _ => {}
        }
        let p = match args.get(0) {
            Some(Val::Ptr(p)) => (**p).clone(),
            _ => return Ok(None),
        };
        let ty = self.pointee(arg_tys[0]).ok_or("String")?;
        let mut v = match self.string_val(st, &p, ty)? {
            Some(v) => v,
            None => return Ok(None),
        };
        let r = match m {
            "is_empty" => cnum(v.is_empty() as I),
            "reserve" | "shrink_to_fit" => unit(),
            "clone" => nat(v),
            "clear" => {
                self.write(&mut s, &p, nat(vec![]))?;
                unit()
            }
            "push" | "write_char" => {
                v.push(args[1].clone());
                self.write(&mut s, &p, nat(v))?;
                if m == "push" { unit() } else { cenum(0, vec![unit()]) }
            }
            "push_str" | "write_str" => {
                match self.str_chars(st, &args[1])? {
                    Some(x) => v.extend(x),
                    None => bail!("push_str of a text of unknown length"),
                }
                self.write(&mut s, &p, nat(v))?;
                if m == "push_str" { unit() } else { cenum(0, vec![unit()]) }
            }
            "pop" => match v.pop() {
                None => none(),
                Some(c) => {
                    self.write(&mut s, &p, nat(v))?;
                    some(c)
                }
            },
            "deref" | "as_str" | "as_ref" | "borrow" | "len" => {
                let mut out = vec![];
                for (s, t) in self.text_from(s, &v)? {
                    let r = match (m, &t) {
                        ("len", Val::Ptr(p)) => match &p.meta {
                            Meta::Len(n) => num(n.clone()),
                            _ => bail!("len"),
                        },
                        _ => t,
                    };
                    out.extend(ret(s, r));
                }
                return Ok(Some(out));
            }
            _ => return Ok(None),
        };
        Ok(Some(ret(s, r)))
    }
    /// normalization, the IDNA mapping and Punycode as functions of which nothing is known
    pub fn idna(&mut self, inst: Instance, name: &str, args: &[Val], arg_tys: &[Ty], st: &State) -> R<Option<Vec<Outcome>>> {
        let mode = match self.idna {
            Some(m) => m,
            None => return Ok(None),
        };
        let key: &'static str = if name.contains("StrNormalForm<") && name.ends_with(">::nfc") {
            "nfc"
        } else if name.ends_with("Mapping::of") {
            "mapping"
        } else if name.ends_with("decode_to_string") {
            "decode"
        } else if name.ends_with("encode_str") {
            "encode"
        } else {
            return Ok(None);
        };
        let chars = if key == "mapping" {
            // characters of ASCII have their real mapping
            let n = self.num(&args[0])?;
            if let Some(l) = n.lin() {
                if l.t.len() == 1 {
                    let set = st.set(l.t[0].0).clone();
                    let low = set.clip(0, 0x7f);
                    if !low.is_empty() && set.single().is_none() {
                        let mut parts: Vec<ISet> = low.iter().map(|c| ISet::range(c, c)).collect();
                        parts.push(set.clip(0x80, I::MAX));
                        let mut out = vec![];
                        for p in parts {
                            if !p.is_empty() {
                                let mut s = st.clone();
                                s.set_sym(l.t[0].0, p);
                                out.extend(self.call(inst, args.to_vec(), arg_tys, s));
                            }
                        }
                        return Ok(Some(out));
                    }
                }
            }
            if let Some(c) = st.get_const(&n) {
                if c < 0x80 {
                    let save = self.idna.take();
                    let out = self.call(inst, vec![cnum(c)], arg_tys, st.clone());
                    self.idna = save;
                    return Ok(Some(out));
                }
            }
            vec![args[0].clone()]
        } else if let Val::Agg(f) = &args[0] {
            // (an iterator over the characters of a text)
            let ends: Vec<Val> = match &f.get(0) {
                Some(Val::Agg(g)) => g.iter().filter(|x| self.ptr_of(x).is_ok()).cloned().collect(),
                _ => return Ok(None),
            };
            if f.len() != 1 || ends.len() != 2 {
                return Ok(None);
            }
            let (a, b) = (self.ptr_of(&ends[0])?, self.ptr_of(&ends[1])?);
            match (&a.base, &b.base) {
                (Base::Text(t), Base::Text(u)) if t == u => {
                    let (x, y) = (text_pos(&a)?, text_pos(&b)?);
                    let p = Ptr { base: Base::Text(*t), path: vec![P::N(x.clone())], off: 0, meta: Meta::Len(add_lin(&y, &x, -1)?) };
                    match self.str_chars(st, &Val::Ptr(Rc::new(p)))? {
                        Some(v) => v,
                        None => return Ok(None),
                    }
                }
                _ => return Ok(None),
            }
        } else {
            match self.str_chars(st, &args[0])? {
                Some(v) => v,
                None => return Ok(None),
            }
        };
        let mut norm = vec![];
        let mut ascii = true;
        for c in &chars {
            let n = self.num(c)?;
            norm.push(match st.get_const(&n) {
                Some(k) => cnum(k),
                None => c.clone(),
            });
            ascii &= st.bounds(&n).1 < 0x80;
        }
        if let Some(m) = st.memo.iter().find(|m| m.0 == key && m.1 == norm) {
            let v = m.2.clone();
            return Ok(Some(self.idna_out(key, v, st)?));
        }
        let other = || ISet::range(0x80, 0x7ff);
        let mut put: Vec<(State, Val)> = vec![];
        match key {
            "nfc" => {
                put.push((st.clone(), nat(norm.clone())));
                if !ascii && mode & 2 != 0 {
                    // the first character that is not ASCII becomes another one
                    let mut s = st.clone();
                    let x = num(s.fresh(other()));
                    let i = norm.iter().position(|c| self.num(c).map_or(false, |n| st.bounds(&n).1 >= 0x80)).unwrap();
                    let mut v = norm.clone();
                    v[i] = x.clone();
                    Rc::make_mut(&mut s.memo).push(("nfc", v.clone(), nat(v.clone())));
                    put.push((s, nat(v)));
                }
            }
            "mapping" => {
                let vs = self.mappings.clone();
                for (i, v) in vs.iter().enumerate() {
                    if i == 0 || mode & 1 != 0 {
                        put.push((st.clone(), v.clone()));
                    }
                }
            }
            "decode" => {
                put.push((st.clone(), none()));
                if mode & 4 != 0 {
                    let mut s = st.clone();
                    let x = num(s.fresh(other()));
                    put.push((s, some(nat(vec![x]))));
                    if mode & 8 == 0 {
                        let mut s = st.clone();
                        let x = num(s.fresh(other()));
                        let y = num(s.fresh(other()));
                        put.push((s, some(nat(vec![x, y]))));
                    }
                    put.push((st.clone(), some(nat(vec![]))));
                }
            }
            _ => {
                put.push((st.clone(), none()));
                let mut s = st.clone();
                let x = num(s.fresh(ISet::range('0' as I, '9' as I)));
                put.push((s, some(nat(vec![x]))));
            }
        }
        let mut out = vec![];
        for (mut s, v) in put {
            Rc::make_mut(&mut s.memo).push((key, norm.clone(), v.clone()));
            out.extend(self.idna_out(key, v, &s)?);
        }
        Ok(Some(out))
    }
    fn idna_out(&mut self, _key: &str, v: Val, st: &State) -> R<Vec<Outcome>> {
        Ok(ret(st.clone(), v))
    }
}
