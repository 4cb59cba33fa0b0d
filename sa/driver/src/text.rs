//! Abstract texts: a `&str` whose characters are unknown is a sequence of items, each either one
//! character (a symbol with its set of values) or a repetition "zero or more characters of a set".
//! Characters are split off a repetition when the program reads them. At loop heads the state is
//! canonicalised (dead values dropped, old items summarised, symbols renamed) and compared with the
//! states already analysed there, so that loops over texts of any length reach a fixpoint.
use crate::interp::*;
use crate::num::*;
use crate::summaries::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub const BIG: I = 1 << 60;
/// number of repetitions kept behind the reading position

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Item {
    /// one character, or a repetition
    pub c: Option<Sym>,
    pub set: ISet,
    pub len: Sym,
    /// unread input (reading from it runs the monitor)
    pub input: bool,
    /// a character of the input, read forwards (1) or backwards (2), not yet noted in `hist`
    pub rec: u8,
    /// on the right of the position a text is explored from
    pub right: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Text {
    pub items: Vec<Item>,
    pub addr: Sym,
    pub mon: Option<(Val, Instance)>,
    /// the text is explored from its end
    pub back: bool,
    /// partition of the characters by which read text is remembered
    pub coarse: Rc<Vec<ISet>>,
    /// coarser, for repetitions followed by others
    pub groups: Rc<Vec<ISet>>,
    pub sticky: ISet,
    pub exact: ISet,
}

pub fn scalar() -> ISet {
    ISet(Rc::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]))
}
pub fn len_class(n: I) -> ISet {
    match n {
        1 => ISet::range(0, 0x7F),
        2 => ISet::range(0x80, 0x7FF),
        3 => ISet(Rc::new(vec![(0x800, 0xD7FF), (0xE000, 0xFFFF)])),
        _ => ISet::range(0x10000, 0x10FFFF),
    }
}
pub fn lens(s: &ISet) -> ISet {
    ISet::from_vec((1..=4).filter(|n| !s.intersect(&len_class(*n)).is_empty()).map(|n| (n, n)).collect())
}

pub fn add_lin(a: &Num, b: &Num, kb: I) -> R<Num> {
    let (x, y) = (a.lin().ok_or("position")?, b.lin().ok_or("position")?);
    Ok(Num::from_lin(lin_comb(&x, 1, &y, kb).ok_or("position overflow")?))
}

fn map_num(n: &mut Num, f: &mut dyn FnMut(&Num) -> Num) {
    if !matches!(n, Num::C(_)) {
        *n = f(n);
    }
}
/// apply `f` to every number inside a value
pub fn map_val(v: &mut Val, f: &mut dyn FnMut(&Num) -> Num) {
    match v {
        Val::Num(n) => map_num(n, f),
        Val::Agg(x) => {
            if val_symbolic_deep_list(x) {
                Rc::make_mut(x).iter_mut().for_each(|y| map_val(y, f))
            }
        }
        Val::Enum(n, x) => {
            map_num(n, f);
            if val_symbolic_deep_list(x) {
                Rc::make_mut(x).iter_mut().for_each(|y| map_val(y, f))
            }
        }
        Val::Ptr(p) => {
            let has = p.path.iter().any(|e| matches!(e, P::N(n) if n.as_const().is_none()))
                || matches!(&p.meta, Meta::Len(n) if n.as_const().is_none());
            if has {
                let q = Rc::make_mut(p);
                for e in q.path.iter_mut() {
                    if let P::N(n) = e {
                        map_num(n, f);
                    }
                }
                if let Meta::Len(n) = &mut q.meta {
                    map_num(n, f);
                }
            }
        }
        Val::Nat(x) => {
            if let Nat::Vec(_) = &**x {
                if let Nat::Vec(y) = Rc::make_mut(x) {
                    y.iter_mut().for_each(|z| map_val(z, f));
                }
            }
        }
        _ => {}
    }
}
fn val_symbolic_deep_list(x: &[Val]) -> bool {
    x.iter().any(|v| match v {
        Val::Num(n) => n.as_const().is_none(),
        Val::Undef | Val::Fn(_) => false,
        Val::Agg(f) => val_symbolic_deep_list(f),
        Val::Enum(n, f) => n.as_const().is_none() || val_symbolic_deep_list(f),
        Val::Ptr(p) => {
            p.path.iter().any(|e| matches!(e, P::N(n) if n.as_const().is_none()))
                || matches!(&p.meta, Meta::Len(n) if n.as_const().is_none())
        }
        Val::Nat(_) => true,
    })
}

impl State {
    pub fn fresh_sym(&mut self, set: ISet) -> Sym {
        let v = Rc::make_mut(&mut self.syms);
        v.push(set);
        (v.len() - 1) as Sym
    }
    /// replace every occurrence of symbol `s` by `by`
    pub fn subst(&mut self, s: Sym, by: &Lin) -> R<()> {
        let mut bad = false;
        let mut f = |n: &Num| -> Num {
            match n {
                Num::L(l) => match l.t.iter().find(|x| x.0 == s) {
                    None => n.clone(),
                    Some(&(_, k)) => {
                        let mut l2 = (**l).clone();
                        l2.t.retain(|x| x.0 != s);
                        match lin_comb(&l2, 1, by, k) {
                            Some(r) => Num::from_lin(r),
                            None => {
                                bad = true;
                                n.clone()
                            }
                        }
                    }
                },
                Num::F(x, _) if *x == s => {
                    bad = true;
                    n.clone()
                }
                n => n.clone(),
            }
        };
        for fr in self.frames.iter_mut() {
            if val_symbolic_deep_list(fr) {
                Rc::make_mut(fr).iter_mut().for_each(|v| map_val(v, &mut f));
            }
        }
        if val_symbolic_deep_list(&self.heap) {
            Rc::make_mut(&mut self.heap).iter_mut().for_each(|v| map_val(v, &mut f));
        }
        if bad {
            bail!("substitution in an opaque expression");
        }
        Ok(())
    }
}

pub struct LoopInfo {
    pub heads: Vec<bool>,
    pub live: Vec<BTreeSet<usize>>,
}

fn use_place(p: &Place, s: &mut BTreeSet<usize>) {
    s.insert(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            s.insert(*l);
        }
    }
}
fn use_op(o: &Operand, s: &mut BTreeSet<usize>) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        use_place(p, s)
    }
}
fn def_place(p: &Place, s: &mut BTreeSet<usize>) {
    if p.projection.is_empty() {
        s.remove(&p.local);
    } else {
        use_place(p, s);
    }
}

pub fn loop_info(b: &Body) -> LoopInfo {
    let n = b.blocks.len();
    let mut heads = vec![false; n];
    // back edges by depth-first search
    let mut color = vec![0u8; n];
    let mut stack = vec![(0usize, 0usize)];
    color[0] = 1;
    let succ: Vec<Vec<usize>> = b.blocks.iter().map(|x| x.terminator.successors()).collect();
    while let Some((x, i)) = stack.pop() {
        if i < succ[x].len() {
            stack.push((x, i + 1));
            let y = succ[x][i];
            if color[y] == 0 {
                color[y] = 1;
                stack.push((y, 0));
            } else if color[y] == 1 {
                heads[y] = true;
            }
        } else {
            color[x] = 2;
        }
    }
    let mut live: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    loop {
        let mut changed = false;
        for x in (0..n).rev() {
            let mut s: BTreeSet<usize> = BTreeSet::new();
            for y in &succ[x] {
                s.extend(live[*y].iter().copied());
            }
            match &b.blocks[x].terminator.kind {
                TerminatorKind::Return => {
                    s.insert(0);
                }
                TerminatorKind::SwitchInt { discr, .. } => use_op(discr, &mut s),
                TerminatorKind::Assert { cond, .. } => use_op(cond, &mut s),
                TerminatorKind::Call { func, args, destination, .. } => {
                    def_place(destination, &mut s);
                    use_op(func, &mut s);
                    args.iter().for_each(|a| use_op(a, &mut s));
                }
                _ => {}
            }
            for st in b.blocks[x].statements.iter().rev() {
                match &st.kind {
                    StatementKind::Assign(p, rv) => {
                        def_place(p, &mut s);
                        match rv {
                            Rvalue::AddressOf(_, p)
                            | Rvalue::CopyForDeref(p)
                            | Rvalue::Discriminant(p)
                            | Rvalue::Len(p)
                            | Rvalue::Reborrow(_, _, p) => use_place(p, &mut s),
                            Rvalue::Ref(_, _, p) => use_place(p, &mut s),
                            Rvalue::Aggregate(_, v) => v.iter().for_each(|o| use_op(o, &mut s)),
                            Rvalue::BinaryOp(_, a, c) | Rvalue::CheckedBinaryOp(_, a, c) => {
                                use_op(a, &mut s);
                                use_op(c, &mut s)
                            }
                            Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => {
                                use_op(o, &mut s)
                            }
                            Rvalue::ThreadLocalRef(_) => {}
                        }
                    }
                    StatementKind::SetDiscriminant { place, .. } => use_place(place, &mut s),
                    StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                        s.remove(l);
                    }
                    _ => {}
                }
            }
            if s != live[x] {
                live[x] = s;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    LoopInfo { heads, live }
}

#[derive(Default)]
pub struct Fix {
    /// states analysed at each loop head, by call stack and skeleton
    pub seen: HashMap<u64, Vec<State>>,
    pub loops: HashMap<Instance, Rc<LoopInfo>>,
    pub visits: u64,
    pub pruned: u64,
    /// exact results of functions of one character
    pub memo: HashMap<Instance, Option<Rc<Vec<(ISet, Val)>>>>,
    pub native: usize,
    pub keep: usize,
    pub reps: usize,
    /// the one text to analyse (feasibility of a counterexample), instead of every text
    pub seq: Option<Vec<I>>,
    pub tuned: bool,
}

/// what of a state is reachable from live variables
struct Mark {
    loc: HashSet<(usize, usize)>,
    heap: BTreeSet<usize>,
    texts: BTreeSet<usize>,
}

fn mark_val(st: &State, v: &Val, m: &mut Mark) {
    match v {
        Val::Agg(f) => f.iter().for_each(|x| mark_val(st, x, m)),
        Val::Enum(_, f) => f.iter().for_each(|x| mark_val(st, x, m)),
        Val::Nat(n) => {
            if let Nat::Vec(f) = &**n {
                f.iter().for_each(|x| mark_val(st, x, m))
            }
        }
        Val::Ptr(p) => match p.base {
            Base::Local(f, l) => {
                if f < st.frames.len() && m.loc.insert((f, l)) {
                    mark_val(st, &st.frames[f][l], m);
                }
            }
            Base::Heap(h) => {
                if m.heap.insert(h) {
                    mark_val(st, &st.heap[h], m);
                }
            }
            Base::Text(t) => {
                if m.texts.insert(t) {
                    if let Some((v, _)) = &st.texts[t].mon {
                        mark_val(st, v, m);
                    }
                }
            }
            _ => {}
        },
        _ => {}
    }
}

fn lins_val(v: &Val, out: &mut Vec<Rc<Lin>>, opaque: &mut HashSet<Sym>) {
    let mut num = |n: &Num| match n {
        Num::L(l) => out.push(l.clone()),
        Num::F(s, _) => {
            opaque.insert(*s);
        }
        _ => {}
    };
    match v {
        Val::Num(n) => num(n),
        Val::Enum(n, f) => {
            num(n);
            f.iter().for_each(|x| lins_val(x, out, opaque))
        }
        Val::Agg(f) => f.iter().for_each(|x| lins_val(x, out, opaque)),
        Val::Ptr(p) => {
            for e in &p.path {
                if let P::N(n) = e {
                    num(n)
                }
            }
            if let Meta::Len(n) = &p.meta {
                num(n)
            }
        }
        Val::Nat(n) => {
            if let Nat::Vec(f) = &**n {
                f.iter().for_each(|x| lins_val(x, out, opaque))
            }
        }
        _ => {}
    }
}

impl Interp {
    pub fn looping(&mut self, body: &BodyX) -> Rc<LoopInfo> {
        if let Some(l) = self.fix.loops.get(&body.inst) {
            return l.clone();
        }
        let l = Rc::new(loop_info(&body.b));
        self.fix.loops.insert(body.inst, l.clone());
        l
    }

    /// keep character sets and their UTF-8 lengths consistent; false when infeasible
    pub fn sync(&mut self, st: &mut State) -> bool {
        for (k, (lo, hi)) in st.cons.iter() {
            let (mut a, mut b): (I, I) = (0, 0);
            for (x, c) in k {
                let v = st.set(*x);
                if v.is_empty() {
                    return false;
                }
                let (p, q) = (v.min().saturating_mul(*c), v.max().saturating_mul(*c));
                a = a.saturating_add(p.min(q));
                b = b.saturating_add(p.max(q));
            }
            if a > *hi || b < *lo {
                return false;
            }
        }
        for t in 0..st.texts.len() {
            for i in 0..st.texts[t].items.len() {
                let it = st.texts[t].items[i].clone();
                if let Some(c) = it.c {
                    let cs = st.set(c).clone();
                    let ls = st.set(it.len).intersect(&lens(&cs));
                    if ls.is_empty() {
                        return false;
                    }
                    if ls != *st.set(it.len) {
                        st.set_sym(it.len, ls.clone());
                    }
                    if ls.count() < 4 {
                        let mut u = ISet::empty();
                        for n in ls.iter() {
                            u = u.union(&len_class(n));
                        }
                        let c2 = cs.intersect(&u);
                        if c2.is_empty() {
                            return false;
                        }
                        if c2 != cs {
                            st.set_sym(c, c2);
                        }
                    }
                } else if st.set(it.len).is_empty() {
                    return false;
                }
            }
        }
        true
    }
    /// position of an item boundary
    fn prefix(st: &State, t: usize, i: usize) -> Num {
        let mut v: Vec<(Sym, I)> = st.texts[t].items[..i].iter().map(|x| (x.len, 1)).collect();
        v.sort();
        Num::from_lin(Lin { t: v, c: 0 })
    }
    pub fn text_len(st: &State, t: usize) -> Num {
        Self::prefix(st, t, st.texts[t].items.len())
    }
    fn boundary(&self, st: &State, t: usize, pos: &Num) -> R<Option<usize>> {
        let n = st.texts[t].items.len();
        for i in 0..=n {
            let d = add_lin(pos, &Self::prefix(st, t, i), -1)?;
            if st.bounds(&d) == (0, 0) {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }
    /// whether a position is a character boundary
    fn aligned(&mut self, st: State, t: usize, pos: &Num) -> R<Vec<(State, bool)>> {
        let mut out = vec![];
        let mut work = vec![st];
        'next: while let Some(mut st) = work.pop() {
            if !self.sync(&mut st) {
                continue;
            }
            if self.boundary(&st, t, pos)?.is_some() {
                out.push((st, true));
                continue;
            }
            // inside a character?
            for i in 0..st.texts[t].items.len() {
                let it = st.texts[t].items[i].clone();
                if it.c.is_none() {
                    continue;
                }
                let d = add_lin(pos, &Self::prefix(&st, t, i), -1)?;
                let e = add_lin(&d, &Num::sym(it.len), -1)?;
                if st.bounds(&d).0 < 1 {
                    break;
                }
                if st.bounds(&e).1 <= -1 {
                    out.push((st, false));
                    continue 'next;
                }
                let set = st.set(it.len).clone();
                if d.as_const().map_or(false, |c| c < 4) && set.single().is_none() {
                    for l in 1..=4 {
                        if set.contains(l) {
                            let mut s2 = st.clone();
                            s2.set_sym(it.len, ISet::range(l, l));
                            work.push(s2);
                        }
                    }
                    continue 'next;
                }
            }
            bail!("position {} of unknown alignment in an abstract text: {}", dump_val(&Val::Num(pos.clone())), dump(&st));
        }
        Ok(out)
    }
    /// the character that starts (or, backwards, ends) at `pos`; the caller knows there is one
    pub fn text_read(&mut self, st: State, t: usize, which: &dyn Fn(&mut Interp, &State) -> R<Num>, back: bool) -> R<Vec<(State, Result<(Num, Num, bool, Num), String>)>> {
        let mut out = vec![];
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            if !self.sync(&mut st) {
                continue;
            }
            let pos = which(self, &st)?;
            let mut i = match self.boundary(&st, t, &pos)? {
                Some(i) => i,
                None => bail!("reading at an unknown position of an abstract text"),
            };
            // skip empty repetitions
            let n = st.texts[t].items.len();
            let idx = loop {
                if back {
                    // several boundaries may coincide: take the last
                    if i < n && st.set(st.texts[t].items[i].len).single() == Some(0) {
                        i += 1;
                        continue;
                    }
                    let mut j = i;
                    while j > 0 && st.set(st.texts[t].items[j - 1].len).single() == Some(0) {
                        j -= 1;
                    }
                    if j == 0 {
                        break None;
                    }
                    break Some(j - 1);
                } else {
                    if i == n {
                        break None;
                    }
                    if st.set(st.texts[t].items[i].len).single() == Some(0) {
                        i += 1;
                        continue;
                    }
                    break Some(i);
                }
            };
            let k = match idx {
                Some(k) => k,
                // no character there: the caller's precondition is contradicted
                None => continue,
            };
            let it = st.texts[t].items[k].clone();
            if let Some(c) = it.c {
                let p = if back { add_lin(&pos, &Num::sym(it.len), -1)? } else { pos.clone() };
                out.push((st, Ok((Num::sym(c), Num::sym(it.len), false, p))));
                continue;
            }
            let rs = st.set(it.len).clone();
            if rs.contains(0) {
                let mut s0 = st.clone();
                s0.set_sym(it.len, ISet::range(0, 0));
                work.push(s0);
            }
            let rs = rs.clip(1, I::MAX);
            if rs.is_empty() {
                continue;
            }
            let mx = rs.max();
            let mn = rs.min();
            let c = st.fresh_sym(it.set.clone());
            let ls = lens(&it.set).clip(1, mx);
            if ls.is_empty() {
                continue;
            }
            let (l0, l1) = (ls.min(), ls.max());
            let l = st.fresh_sym(ls);
            let r = st.fresh_sym(ISet::range((mn - l1).max(0), mx - l0));
            let by = lin_comb(&Num::sym(l).lin().unwrap(), 1, &Num::sym(r).lin().unwrap(), 1).unwrap();
            // relational constraints over the replaced symbol
            let olds: Vec<(Vec<(Sym, I)>, (I, I))> =
                st.cons.iter().filter(|(k, _)| k.iter().any(|x| x.0 == it.len)).map(|(k, b)| (k.clone(), *b)).collect();
            if !olds.is_empty() {
                Rc::make_mut(&mut st.cons).retain(|k, _| !k.iter().any(|x| x.0 == it.len));
            }
            st.subst(it.len, &by)?;
            let ni = Item { c: Some(c), set: ISet::empty(), len: l, input: false, rec: if it.input { 1 + back as u8 } else { 0 }, right: it.right };
            let nr = Item { c: None, set: it.set.clone(), len: r, input: it.input, rec: 0, right: it.right };
            let tx = Rc::make_mut(&mut st.texts);
            let v = &mut tx[t].items;
            if back {
                v[k] = nr;
                v.insert(k + 1, ni);
            } else {
                v[k] = ni;
                v.insert(k + 1, nr);
            }
            let mut ok = true;
            for (key, (lo, hi)) in olds {
                let mut lin = Lin { t: vec![], c: 0 };
                for (s, k) in key {
                    let x = if s == it.len { by.clone() } else { Num::sym(s).lin().unwrap() };
                    lin = lin_comb(&lin, 1, &x, k).ok_or("cons")?;
                }
                if !self.constrain(&mut st, &lin, lo, hi) {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let pos = which(self, &st)?;
            let p = if back { add_lin(&pos, &Num::sym(l), -1)? } else { pos };
            if it.input {
                st.dirty = true;
                if let Some((m, step)) = st.texts[t].mon.clone() {
                    // run the monitor on the new character
                    let body = self.body(step).ok_or("monitor body")?;
                    let mut args = vec![m, Val::Num(p.clone()), Val::Num(Num::sym(c)), Val::Num(Num::C(back as I))];
                    args.truncate(body.b.arg_locals().len());
                    let tys: Vec<Ty> = (0..args.len()).map(|i| body.local_tys[i + 1]).collect();
                    self.fix.native += 1;
                    let outs = self.call(step, args, &tys, st);
                    self.fix.native -= 1;
                    for o in outs {
                        match o.out {
                            Out::Ret(_) => out.push((o.st, Ok((Num::sym(c), Num::sym(l), true, p.clone())))),
                            Out::Panic(m) => out.push((o.st, Err(format!("monitor: {m}")))),
                            Out::Unsup(m) => out.push((o.st, Err(format!("monitor: {m}")))),
                        }
                    }
                    continue;
                }
            }
            out.push((st, Ok((Num::sym(c), Num::sym(l), true, p))));
        }
        Ok(out)
    }

    /// any character boundary of a piece of the text, relative to its start
    fn text_cut(&mut self, args: &[Val], st: &State) -> R<Vec<Outcome>> {
        let (t, pos, len) = self.text_of(&args[0]).ok_or("cut: not an abstract text")?;
        let mut s0 = st.clone();
        s0.dirty = true;
        if !self.sync(&mut s0) {
            return Ok(vec![]);
        }
        let end = add_lin(&pos, &len, 1)?;
        let n = s0.texts[t].items.len();
        let find = |p: &Num| -> Option<usize> {
            (0..=n).find(|&i| add_lin(p, &Self::prefix(&s0, t, i), -1).map_or(false, |d| s0.bounds(&d) == (0, 0)))
        };
        let (i, j) = (find(&pos).ok_or("cut: start")?, find(&end).ok_or("cut: end")?);
        let mut out = vec![];
        for k in i..=j.max(i) {
            let mut s = s0.clone();
            let at = if k < j && s.texts[t].items[k].c.is_none() && self.fix.seq.is_none() {
                let it = s.texts[t].items[k].clone();
                let rs = s.set(it.len).clone();
                let (a, b) = (s.fresh_sym(ISet::range(0, rs.max())), s.fresh_sym(ISet::range(0, rs.max())));
                let by = lin_comb(&Num::sym(a).lin().unwrap(), 1, &Num::sym(b).lin().unwrap(), 1).unwrap();
                let olds: Vec<(Vec<(Sym, I)>, (I, I))> =
                    s.cons.iter().filter(|(k, _)| k.iter().any(|x| x.0 == it.len)).map(|(k, b)| (k.clone(), *b)).collect();
                if !olds.is_empty() {
                    Rc::make_mut(&mut s.cons).retain(|k, _| !k.iter().any(|x| x.0 == it.len));
                }
                s.subst(it.len, &by)?;
                let v = &mut Rc::make_mut(&mut s.texts)[t].items;
                v[k].len = a;
                v.insert(k + 1, Item { len: b, ..it.clone() });
                let mut ok = true;
                for (key, (lo, hi)) in olds {
                    let mut lin = Lin { t: vec![], c: 0 };
                    for (x, k) in key {
                        let y = if x == it.len { by.clone() } else { Num::sym(x).lin().unwrap() };
                        lin = lin_comb(&lin, 1, &y, k).ok_or("cons")?;
                    }
                    ok &= self.constrain(&mut s, &lin, lo, hi);
                }
                if !ok {
                    continue;
                }
                if !self.constrain(&mut s, &by, rs.min(), rs.max()) {
                    continue;
                }
                Self::prefix(&s, t, k + 1)
            } else {
                Self::prefix(&s, t, k)
            };
            // (the start, too, may be written with the length that was split)
            let start = Self::prefix(&s, t, i);
            let r = add_lin(&at, &start, -1)?;
            out.extend(ret(s, Val::Num(r)));
        }
        Ok(out)
    }

    /// `core::str::validations::next_code_point{,_reverse}` on an iterator over an abstract text
    pub fn next_code_point(&mut self, args: &[Val], arg_tys: &[Ty], st: &State, back: bool) -> R<Option<Vec<Outcome>>> {
        let itp = self.ptr_of(&args[0])?;
        let ity = self.pointee(arg_tys[0]).ok_or("iterator type")?;
        let itp = (*itp).clone();
        let rd = |me: &mut Interp, s: &State| -> R<(usize, Num, Num)> {
            let v = me.read(s, &itp, ity)?;
            let f = match &v {
                Val::Agg(f) => f.clone(),
                _ => bail!("iterator value"),
            };
            let (a, b) = (me.ptr_of(&f[0])?, me.ptr_of(&f[1])?);
            match (&a.base, &b.base) {
                (Base::Text(t), Base::Text(u)) if t == u => Ok((*t, text_pos(&a)?, text_pos(&b)?)),
                _ => bail!("not a text"),
            }
        };
        let (t, a, b) = match rd(self, st) {
            Ok(x) => x,
            Err(_) => return Ok(None),
        };
        let mut s0 = st.clone();
        s0.dirty = true;
        if !self.sync(&mut s0) {
            return Ok(Some(vec![]));
        }
        let mut out = vec![];
        for (s, eq) in self.cmp_split(s0, BinOp::Eq, &a, &b) {
            if eq {
                out.extend(ret(s, none()));
                continue;
            }
            let w = |me: &mut Interp, s: &State| -> R<Num> {
                let (_, a, b) = rd(me, s)?;
                Ok(if back { b } else { a })
            };
            for (mut s, r) in self.text_read(s, t, &w, back)? {
                let (c, l, _, p) = match r {
                    Ok(x) => x,
                    Err(e) => {
                        out.push(Outcome { st: s, out: Out::Unsup(e.into()) });
                        continue;
                    }
                };
                let v = self.read(&s, &itp, ity)?;
                let f = match v {
                    Val::Agg(f) => f,
                    _ => bail!("iterator value"),
                };
                let np = if back { p } else { add_lin(&p, &l, 1)? };
                let mut f = (*f).clone();
                let k = if back { 1 } else { 0 };
                f[k] = repoint(&f[k], &np);
                self.write(&mut s, &itp, Val::Agg(Rc::new(f)))?;
                out.extend(ret(s, some(Val::Num(c))));
            }
        }
        Ok(Some(out))
    }

    /// exact results of a function of one character, as a partition of the characters
    pub fn char_table(&mut self, inst: Instance, arg_tys: &[Ty]) -> Option<Rc<Vec<(ISet, Val)>>> {
        if !self.fix.memo.contains_key(&inst) {
            self.fix.memo.insert(inst, None);
            let mut s0 = State::new();
            let x = s0.fresh(scalar());
            self.fix.native += 1;
            let stack = std::mem::take(&mut self.stack);
            let outs = merge(self.call(inst, vec![num(x)], arg_tys, s0));
            self.stack = stack;
            self.fix.native -= 1;
            let mut tab: Vec<(ISet, Val)> = vec![];
            let mut ok = true;
            for o in outs {
                match o.out {
                    Out::Ret(v) if !val_symbolic(&v) && !refs_state(&v) => {
                        let set = o.st.syms[0].clone();
                        match tab.iter_mut().find(|x| x.1 == v) {
                            Some(x) => x.0 = x.0.union(&set),
                            None => tab.push((set, v)),
                        }
                    }
                    _ => ok = false,
                }
            }
            if ok && !tab.is_empty() {
                self.fix.memo.insert(inst, Some(Rc::new(tab)));
            }
        }
        self.fix.memo.get(&inst).cloned().flatten()
    }

    pub fn text_of(&mut self, v: &Val) -> Option<(usize, Num, Num)> {
        let p = self.ptr_of(v).ok()?;
        match (&p.base, &p.meta) {
            (Base::Text(t), Meta::Len(n)) => Some((*t, text_pos(&p).ok()?, n.clone())),
            _ => None,
        }
    }

    pub fn text_summary(&mut self, inst: Instance, name: &str, args: &[Val], arg_tys: &[Ty], st: &State) -> R<Option<Vec<Outcome>>> {
        match name {
            "harness::lazy::text" | "harness::lazy::text_back" | "harness::lazy::text_at" => {
                // (monitor, step, classes) -> (&str, &mut monitor)
                let cls = match &args[2] {
                    Val::Fn(i) => *i,
                    _ => bail!("classes"),
                };
                let chr = Ty::from_rigid_kind(RigidTy::Char);
                let tab = self.char_table(cls, &[chr]).ok_or("classes of characters")?;
                let coarse: Vec<ISet> = tab.iter().map(|x| x.0.clone()).collect();
                // the high half of the class is its group; bit 3: kept apart from a following group
                // bit 2: the characters worth keeping at remembered positions (default: all)
                let mut sticky = ISet::empty();
                let mut exact = ISet::empty();
                let mut groups: BTreeMap<I, ISet> = BTreeMap::new();
                for (set, v) in tab.iter() {
                    let g = match v {
                        Val::Num(n) => n.as_const().ok_or("class")? >> 4,
                        _ => bail!("class"),
                    };
                    if let Val::Num(n) = v {
                        if n.as_const().unwrap() & 8 != 0 {
                            sticky = sticky.union(set);
                        }
                        if n.as_const().unwrap() & 4 != 0 {
                            exact = exact.union(set);
                        }
                    }
                    let e = groups.entry(g).or_insert_with(ISet::empty);
                    *e = e.union(set);
                }
                let groups: Vec<ISet> = groups.into_values().collect();
                let mut s = st.clone();
                let h = s.alloc(args[0].clone());
                let m = Val::Ptr(Rc::new(Ptr { base: Base::Heap(h), path: vec![], off: 0, meta: Meta::None }));
                let step = match &args[1] {
                    Val::Fn(i) => *i,
                    _ => bail!("monitor step"),
                };
                let at = name.ends_with("at");
                let back = at || name.ends_with("back");
                let mut items = vec![];
                let mut left = Num::C(0);
                let mut len = Num::C(0);
                if let Some(q) = &self.fix.seq {
                    let mut order: Vec<I> = vec![];
                    let mut mid = 0;
                    for &c in q {
                        if c & LEFT != 0 || (back && !at) {
                            order.insert(0, c & !LEFT);
                            mid += 1;
                        } else {
                            order.push(c);
                        }
                    }
                    let (mut total, mut tl) = (0, 0);
                    for (i, c) in order.into_iter().enumerate() {
                        let n = lens(&ISet::range(c, c)).min();
                        total += n;
                        if i < mid {
                            tl += n;
                        }
                        let len = s.fresh_sym(ISet::range(n, n));
                        items.push(Item { c: None, set: ISet::range(c, c), len, input: true, rec: 0, right: i >= mid });
                    }
                    left = Num::C(tl);
                    len = Num::C(total);
                } else {
                    for i in 0..if at { 2 } else { 1 } {
                        left = len.clone();
                        let l = s.fresh_sym(ISet::range(0, BIG));
                        len = add_lin(&len, &Num::sym(l), 1)?;
                        items.push(Item { c: None, set: scalar(), len: l, input: true, rec: 0, right: if at { i == 1 } else { !back } });
                    }
                }
                let addr = s.fresh_sym(ISet::range(1, BIG));
                let tx = Rc::make_mut(&mut s.texts);
                tx.push(Text {
                    items,
                    addr,
                    mon: Some((m.clone(), step)),
                    back,
                    coarse: Rc::new(coarse),
                    groups: Rc::new(groups),
                    sticky,
                    exact: if exact.is_empty() { scalar() } else { exact },
                });
                let t = tx.len() - 1;
                s.dirty = true;
                let p = Val::Ptr(Rc::new(Ptr {
                    base: Base::Text(t),
                    path: vec![P::N(Num::C(0))],
                    off: 0,
                    meta: Meta::Len(len),
                }));
                let out = if at { vec![p, Val::Num(left), m] } else { vec![p, m] };
                return Ok(Some(ret(s, Val::Agg(Rc::new(out)))));
            }
            _ => {}
        }
        if name == "harness::lazy::choice" {
            let mut out = vec![];
            for b in 0..2 {
                let mut s = st.clone();
                s.dirty = true;
                out.extend(ret(s, Val::Num(Num::C(b))));
            }
            return Ok(Some(out));
        }
        if name == "harness::lazy::cut" {
            return Ok(Some(self.text_cut(args, st)?));
        }
        if name == "harness::lazy::tune" {
            self.fix.tuned = true;
            let (k, r) = (self.num(&args[0])?, self.num(&args[1])?);
            if std::env::var("ABSINT_KEEP").is_err() {
                self.fix.keep = k.as_const().ok_or("tune")? as usize;
                self.fix.reps = r.as_const().ok_or("tune")? as usize;
            }
            return Ok(Some(ret(st.clone(), Val::Agg(Rc::new(vec![])))));
        }
        if name == "harness::lazy::overrun" {
            return Ok(Some(vec![Outcome { st: st.clone(), out: Out::Panic("the text is read far past a decided position".into()) }]));
        }
        if st.texts.is_empty() {
            return Ok(None);
        }
        match name {
            "core::str::validations::next_code_point" | "core::str::next_code_point" => return self.next_code_point(args, arg_tys, st, false),
            "core::str::validations::next_code_point_reverse" | "core::str::next_code_point_reverse" => return self.next_code_point(args, arg_tys, st, true),
            "core::str::<impl str>::is_char_boundary" => {
                if let Some((t, p, n)) = self.text_of(&args[0]) {
                    let i = self.num(&args[1])?;
                    let q = add_lin(&p, &i, 1)?;
                    let mut out = vec![];
                    for (s, le) in self.cmp_split(st.clone(), BinOp::Le, &i, &n) {
                        if !le {
                            out.extend(ret(s, cnum(0)));
                            continue;
                        }
                        for (s, b) in self.aligned(s, t, &q)? {
                            out.extend(ret(s, cnum(b as I)));
                        }
                    }
                    return Ok(Some(out));
                }
            }
            "core::str::traits::check_range" => {
                if let Some((t, p, n)) = self.text_of(&args[0]) {
                    let (a, b) = match &args[1] {
                        Val::Agg(f) => (self.num(&f[0])?, self.num(&f[1])?),
                        _ => bail!("range"),
                    };
                    let mut out = vec![];
                    for (s, gt) in self.cmp_split(st.clone(), BinOp::Gt, &a, &b) {
                        if gt {
                            out.extend(ret(s, cnum(0)));
                            continue;
                        }
                        for (s, gt) in self.cmp_split(s, BinOp::Gt, &b, &n) {
                            if gt {
                                out.extend(ret(s, cnum(0)));
                                continue;
                            }
                            for (s, x) in self.aligned(s, t, &add_lin(&p, &a, 1)?)? {
                                if !x {
                                    out.extend(ret(s, cnum(0)));
                                    continue;
                                }
                                for (s, y) in self.aligned(s, t, &add_lin(&p, &b, 1)?)? {
                                    out.extend(ret(s, cnum(y as I)));
                                }
                            }
                        }
                    }
                    return Ok(Some(out));
                }
            }
            _ => {}
        }
        if name.ends_with("<impl char>::len_utf8") {
            if let Val::Num(n) = &args[0] {
                if let Some(l) = n.lin() {
                    if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
                        for t in st.texts.iter() {
                            for it in &t.items {
                                if it.c == Some(l.t[0].0) {
                                    return Ok(Some(ret(st.clone(), num(Num::sym(it.len)))));
                                }
                            }
                        }
                    }
                }
            }
        }
        // functions of one character: analysed once for every character, then looked up
        if args.len() == 1 && arg_tys.len() == 1 && !name.starts_with("core::") && !name.starts_with("std::") {
            if let (TyKind::RigidTy(RigidTy::Char), Val::Num(n)) = (&*self.kind(arg_tys[0]), &args[0]) {
                let s = match n.lin() {
                    Some(l) if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 => l.t[0].0,
                    _ => return Ok(None),
                };
                if let Some(tab) = self.char_table(inst, arg_tys) {
                    let cur = st.set(s).clone();
                    let mut out = vec![];
                    for (set, v) in tab.iter() {
                        let x = cur.intersect(set);
                        if x.is_empty() {
                            continue;
                        }
                        let mut s2 = st.clone();
                        s2.set_sym(s, x);
                        out.extend(ret(s2, v.clone()));
                    }
                    return Ok(Some(out));
                }
            }
        }
        Ok(None)
    }

    /// Canonical form of a state at a loop head; None when an equal or larger one was analysed.
    pub fn fixpoint(&mut self, st: State, body: &BodyX, bb: usize) -> R<Option<State>> {
        self.fix.visits += 1;
        if self.fix.seq.is_some() || self.fix.reps == 99 {
            return Ok(Some(st));
        }
        let mut st = st;
        if !self.sync(&mut st) {
            return Ok(None);
        }
        // live locals of every frame
        let nf = st.frames.len();
        let mut lv: Vec<BTreeSet<usize>> = vec![];
        for i in 0..nf {
            if i + 1 == nf {
                let li = self.looping(body);
                lv.push(li.live[bb].clone());
            } else {
                let (inst, tb, dest) = self.stack[i];
                let b = self.body(inst).ok_or("body")?;
                let li = self.looping(&b);
                let mut l = li.live[tb].clone();
                if let Some(d) = dest {
                    l.remove(&d);
                }
                lv.push(l);
            }
        }
        let mut m = Mark { loc: HashSet::new(), heap: BTreeSet::new(), texts: BTreeSet::new() };
        for i in 0..nf {
            for &l in &lv[i] {
                if m.loc.insert((i, l)) {
                    mark_val(&st, &st.frames[i][l], &mut m);
                }
            }
        }
        // drop what is dead
        for i in 0..nf {
            let n = st.frames[i].len();
            let dead: Vec<usize> =
                (0..n).filter(|l| !m.loc.contains(&(i, *l)) && !matches!(st.frames[i][*l], Val::Undef)).collect();
            if !dead.is_empty() {
                let f = Rc::make_mut(&mut st.frames[i]);
                for l in dead {
                    f[l] = Val::Undef;
                }
            }
        }
        {
            let h = Rc::make_mut(&mut st.heap);
            for i in 0..h.len() {
                if !m.heap.contains(&i) {
                    h[i] = Val::Undef;
                }
            }
        }
        // growing counters abstracted to their parity stay so
        let mut grown: Vec<I> = vec![];
        {
            let base = st.syms.len() as Sym;
            let syms = st.syms.clone();
            let mut f = |v: &mut Val| {
                if let Val::Num(Num::L(l)) = v {
                    if l.t.len() == 1 && l.t[0].1 == 2 && (l.c > 1 || l.c < 0) {
                        let set = &syms[l.t[0].0 as usize];
                        if set.is_empty() || 2 * set.min() + l.c < 0 {
                            return;
                        }
                        grown.push(if l.c > 1 { 1 } else { 0 });
                        *v = Val::Num(Num::L(Rc::new(Lin { t: vec![(base + grown.len() as Sym - 1, 2)], c: l.c & 1 })));
                    }
                }
            };
            for fr in st.frames.iter_mut() {
                if fr.iter().any(|v| has_grown(v)) {
                    Rc::make_mut(fr).iter_mut().for_each(|v| each_leaf(v, &mut f));
                }
            }
            if st.heap.iter().any(|v| has_grown(v)) {
                Rc::make_mut(&mut st.heap).iter_mut().for_each(|v| each_leaf(v, &mut f));
            }
        }
        for lo in grown {
            st.fresh_sym(ISet::range(lo, BIG));
        }
        for &t in &m.texts {
            self.summarise(&mut st, t)?;
        }
        // rename
        let st = self.rename(st, &m)?;
        let key = |s: &State, me: &Interp| -> u64 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            body.inst.hash(&mut h);
            bb.hash(&mut h);
            me.stack[..nf - 1].hash(&mut h);
            for f in &s.frames {
                f.iter().for_each(|v| skel(v, &mut h));
            }
            s.heap.iter().for_each(|v| skel(v, &mut h));
            for t in s.texts.iter() {
                for i in &t.items {
                    (i.c, i.len, i.input, &i.set).hash(&mut h);
                }
            }
            s.syms.len().hash(&mut h);
            h.finish()
        };
        let k = key(&st, self);
        let same = |a: &State, b: &State| {
            a.frames == b.frames && a.heap == b.heap && a.texts == b.texts && a.cons == b.cons && a.events == b.events
        };
        let covers = |old: &State, new: &State| {
            same(old, new) && old.syms.iter().zip(new.syms.iter()).all(|(o, n)| o == n || n.minus(o).is_empty())
        };
        let mut st = st;
        for round in 0..2 {
            let k2 = if round == 0 { k } else { key(&st, self) };
            let b = self.fix.seen.entry(k2).or_default();
            if b.iter().any(|o| covers(o, &st)) {
                self.fix.pruned += 1;
                return Ok(None);
            }
            if round == 0 {
                // growing counters: abstract constants that keep changing to their parity
                let grow: Vec<&State> = b.iter().filter(|o| o.syms == st.syms && o.texts == st.texts).collect();
                if grow.len() > 4 {
                    let mut vals: Vec<Vec<I>> = vec![];
                    for o in &grow {
                        let mut v = vec![];
                        consts_state(o, &mut v);
                        vals.push(v);
                    }
                    let mut cur = vec![];
                    consts_state(&st, &mut cur);
                    let mut which = HashSet::new();
                    for i in 0..cur.len() {
                        let mut d: BTreeSet<I> = vals.iter().filter_map(|v| v.get(i).copied()).collect();
                        d.insert(cur[i]);
                        if d.len() > 3 && cur[i] > 2 {
                            which.insert(i);
                        }
                    }
                    if !which.is_empty() {
                        let mut n = 0usize;
                        let mut s2 = st.clone();
                        let mut fresh = s2.syms.len() as Sym;
                        let mut add = 0;
                        let mut f = |x: &mut Val| {
                            let here = n;
                            n += 1;
                            if which.contains(&here) {
                                if let Val::Num(Num::C(c)) = x {
                                    *x = Val::Num(Num::L(Rc::new(Lin { t: vec![(fresh, 2)], c: *c & 1 })));
                                    fresh += 1;
                                    add += 1;
                                }
                            }
                        };
                        for fr in s2.frames.iter_mut() {
                            Rc::make_mut(fr).iter_mut().for_each(|v| each_const(v, &mut f));
                        }
                        Rc::make_mut(&mut s2.heap).iter_mut().for_each(|v| each_const(v, &mut f));
                        for _ in 0..add {
                            s2.fresh_sym(ISet::range(1, BIG));
                        }
                        s2 = self.rename(s2, &m2(&st))?;
                        st = s2;
                        continue;
                    }
                }
            }
            let b = self.fix.seen.entry(k2).or_default();
            if std::env::var("ABSINT_FIX").is_ok() {
                eprintln!("[fix {}/{} pruned {}] {} bb{bb} n={} {}", self.fix.visits, self.steps, self.fix.pruned, body.name, b.len() + 1, dump(&st));
            }
            if b.len() > 5000 {
                bail!("no fixpoint reached at a loop");
            }
            b.push(st.clone());
            break;
        }
        st.dirty = false;
        Ok(Some(st))
    }

    /// forget what was read long ago: characters behind the reading position become repetitions of
    /// their coarse class, equal neighbours are merged, and the oldest ones are merged anyway
    fn summarise(&mut self, st: &mut State, t: usize) -> R<()> {
        // remove empty repetitions
        let mut i = 0;
        while i < st.texts[t].items.len() {
            let it = st.texts[t].items[i].clone();
            if it.c.is_none() && st.set(it.len).single() == Some(0) {
                st.subst(it.len, &Lin { t: vec![], c: 0 })?;
                Rc::make_mut(&mut st.texts)[t].items.remove(i);
            } else {
                i += 1;
            }
        }
        let back = st.texts[t].back;
        let coarse = st.texts[t].coarse.clone();
        let groups = st.texts[t].groups.clone();
        let sticky = st.texts[t].sticky.clone();
        let exact = st.texts[t].exact.clone();
        let keep = self.fix.keep;
        let tuned = self.fix.tuned;
        let close = |s: &ISet| -> ISet {
            let mut o = ISet::empty();
            for c in coarse.iter() {
                if !c.intersect(s).is_empty() {
                    o = o.union(c);
                }
            }
            o
        };
        let mut lins = vec![];
        let mut opaque = HashSet::new();
        for f in &st.frames {
            f.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
        }
        st.heap.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
        // positions written with constants for the lengths of items: write them with symbols
        let n = st.texts[t].items.len();
        {
            let norm = |l: &Lin| -> Lin {
                let mut c = l.c;
                let mut t = vec![];
                for &(s, k) in &l.t {
                    match st.set(s).single() {
                        Some(v) => c += k * v,
                        None => t.push((s, k)),
                    }
                }
                Lin { t, c }
            };
            let pre: Vec<Lin> = (0..=n).map(|i| Self::prefix(st, t, i).lin().unwrap()).collect();
            let npre: Vec<Lin> = pre.iter().map(|p| norm(p)).collect();
            let own: HashSet<Sym> = st.texts[t].items.iter().map(|i| i.len).collect();
            let sub = |a: &Lin, b: &Lin| lin_comb(a, 1, b, -1);
            // the end of a piece that starts at boundary i
            let end = |i: usize, nl: &Lin| (i..=n).find(|&j| sub(&npre[j], &npre[i]).as_ref() == Some(nl));
            let better = |l: &Lin| -> Option<Lin> {
                if l.c == 0 || l.t.is_empty() || !l.t.iter().all(|x| own.contains(&x.0)) {
                    return None;
                }
                let nl = norm(l);
                if let Some(j) = end(0, &nl) {
                    return Some(pre[j].clone());
                }
                let all: Vec<(usize, usize)> = (1..=n).filter_map(|i| end(i, &nl).map(|j| (i, j))).collect();
                if all.len() == 1 { sub(&pre[all[0].1], &pre[all[0].0]) } else { None }
            };
            let mut changed = false;
            let mut f = |v: &mut Val| match v {
                Val::Num(Num::L(l)) => {
                    if let Some(x) = better(l) {
                        *v = Val::Num(Num::L(Rc::new(x)));
                        changed = true;
                    }
                }
                Val::Ptr(p) => {
                    if p.base != Base::Text(t) || p.path.len() != 1 {
                        return;
                    }
                    let at = match &p.path[0] {
                        P::N(Num::L(l)) => (**l).clone(),
                        P::N(Num::C(c)) => Lin { t: vec![], c: *c },
                        _ => return,
                    };
                    let nat = norm(&at);
                    let i = match (0..=n).find(|&i| pre[i] == at).or_else(|| (0..=n).find(|&i| npre[i] == nat)) {
                        Some(i) => i,
                        None => return,
                    };
                    let len = match &p.meta {
                        Meta::Len(Num::L(l)) => Some(norm(l)),
                        Meta::Len(Num::C(c)) => Some(Lin { t: vec![], c: *c }),
                        _ => None,
                    };
                    let q = Rc::make_mut(p);
                    if pre[i] != at {
                        q.path[0] = P::N(Num::from_lin(pre[i].clone()));
                        changed = true;
                    }
                    if let Some(len) = len {
                        if let Some(d) = end(i, &len).and_then(|j| sub(&pre[j], &pre[i])) {
                            q.meta = Meta::Len(Num::from_lin(d));
                            changed = true;
                        }
                    }
                }
                _ => {}
            };
            let mut frames = st.frames.clone();
            let mut heap = st.heap.clone();
            for fr in frames.iter_mut() {
                Rc::make_mut(fr).iter_mut().for_each(|v| each_leaf(v, &mut f));
            }
            Rc::make_mut(&mut heap).iter_mut().for_each(|v| each_leaf(v, &mut f));
            if changed {
                st.frames = frames;
                st.heap = heap;
                lins.clear();
                for f in &st.frames {
                    f.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
                }
                st.heap.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
            }
        }
        // what is remembered of the length of a repetition (of characters of note: two or more)
        let noted_set = exact.count() < 1000;
        let least = |set: &ISet, n: I| if tuned && noted_set && n >= 8 && set.minus(&exact).is_empty() { 8 } else { n.min(1) };
        // characters to repetitions
        let near = [
            st.texts[t].items.iter().position(|i| !i.input && !i.right),
            st.texts[t].items.iter().rposition(|i| !i.input && i.right),
        ];
        // (the character read last and `keep` more, at live positions, stay)
        let mut kept = 0;
        let mut noted = vec![];
        let sides: Vec<bool> = st.texts[t].items.iter().map(|i| i.right).collect();
        let mut order: Vec<usize> = (0..n).filter(|&i| !sides[i]).collect();
        order.extend((0..n).rev().filter(|&i| sides[i]));
        for i in order.iter().copied() {
            let it = st.texts[t].items[i].clone();
            let back = !it.right;
            let near = near[it.right as usize];
            if it.input {
                let lo = st.set(it.len).min().min(1);
                st.set_sym(it.len, ISet::range(lo, BIG));
                continue;
            }
            if it.c.is_none() {
                let lo = least(&it.set, st.set(it.len).min());
                st.set_sym(it.len, ISet::range(lo, BIG));
                if !tuned && keep > 0 && kept >= keep {
                    Rc::make_mut(&mut st.texts)[t].items[i].set = scalar();
                }
                continue;
            }
            if Some(i) == near || opaque.contains(&it.len) {
                continue;
            }
            let at = Self::prefix(st, t, if back { i + 1 } else { i });
            let used = tuned && {
                let c = it.c.unwrap();
                opaque.contains(&c) || lins.iter().any(|l| l.t.iter().any(|x| x.0 == c))
            };
            if used {
                continue;
            }
            let live = if tuned {
                let first = if back { i + 1 == n || sides[i + 1] } else { i == 0 || !sides[i - 1] };
                first && near == Some(if back { i.wrapping_sub(1) } else { i + 1 }) && st.set(it.c.unwrap()).minus(&exact).is_empty()
            } else {
                kept < self.fix.keep && st.set(it.c.unwrap()).minus(&exact).is_empty() && (lins.iter().any(|l| Num::L(l.clone()) == at) || at.as_const() == Some(0))
            };
            if live {
                kept += 1;
                continue;
            }
            let set = if !tuned && keep > 0 && kept >= keep { scalar() } else { st.set(it.c.unwrap()).clone() };
            if it.rec > 0 {
                noted.push((it.rec, i, sample(&set)));
            }
            let lo = least(&set, st.set(it.len).min());
            st.set_sym(it.len, ISet::range(lo, BIG));
            Rc::make_mut(&mut st.texts)[t].items[i] = Item { c: None, set: close(&set), len: it.len, input: false, rec: 0, right: it.right };
        }
        note(Rc::make_mut(&mut st.hist), noted);
        // positions left behind in local variables
        if !self.fix.tuned {
            let items = st.texts[t].items.clone();
            let pre: Vec<Lin> = (0..=n).map(|i| Self::prefix(st, t, i).lin().unwrap()).collect();
            let mut held: HashSet<Lin> = HashSet::new();
            let mut base: Vec<usize> = vec![0];
            let mut dum = HashSet::new();
            {
                let mut hl = vec![];
                st.heap.iter().for_each(|v| lins_val(v, &mut hl, &mut dum));
                held.extend(hl.iter().map(|l| (**l).clone()));
                let mut f = |v: &mut Val| {
                    if let Val::Ptr(p) = v {
                        if p.base == Base::Text(t) {
                            if let Some(P::N(Num::L(l))) = p.path.first() {
                                held.insert((**l).clone());
                                if let Some(i) = (0..=n).find(|&i| pre[i] == **l) {
                                    if !base.contains(&i) {
                                        base.push(i);
                                    }
                                }
                            }
                        }
                    }
                };
                for fr in &st.frames {
                    for v in fr.iter() {
                        each_leaf(&mut v.clone(), &mut f);
                    }
                }
            }
            let rep = |i: usize| !items[i].input && items[i].c.is_none();
            let mut stale = vec![];
            for (fi, fr) in st.frames.iter().enumerate() {
                for (li, v) in fr.iter().enumerate() {
                    if let Val::Num(Num::L(l)) = v {
                        let hit = base.iter().find_map(|&i| (i..=n).find(|&j| lin_comb(&pre[j], 1, &pre[i], -1).as_ref() == Some(&**l)));
                        if let Some(j) = hit {
                            if j > 0 && j < n && rep(j - 1) && rep(j) && !held.contains(&pre[j]) {
                                stale.push((fi, li));
                            }
                        }
                    }
                }
            }
            for (fi, li) in stale {
                let x = st.fresh_sym(ISet::range(0, BIG));
                Rc::make_mut(&mut st.frames[fi])[li] = Val::Num(Num::sym(x));
            }
            lins.clear();
            for f in &st.frames {
                f.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
            }
            st.heap.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
        }
        // neighbours worth telling apart: of one group
        let stuck = |a: &ISet, b: &ISet| {
            a.minus(&sticky).is_empty() && groups.iter().any(|g| b.minus(g).is_empty() && a.intersect(g).is_empty())
        };
        let one_group = |a: &ISet, b: &ISet| groups.iter().any(|g| a.minus(g).is_empty() && b.minus(g).is_empty());
        let apart = |a: &ISet, b: &ISet| {
            let (a, b) = if back { (b, a) } else { (a, b) };
            tuned || one_group(a, b) || stuck(a, b)
        };
        if tuned {
            // a run of one group next to the reading position, the item before it, and anything
            let run = groups.get(1).cloned().unwrap_or_else(ISet::empty);
            let mut past = false;
            let mut last: Option<ISet> = None;
            let mut side = None;
            for i in order {
                let it = st.texts[t].items[i].clone();
                let near = near[it.right as usize];
                if side != Some(it.right) {
                    past = false;
                    last = None;
                    side = Some(it.right);
                }
                if it.input || it.c.is_some() {
                    past |= it.c.is_some() && Some(i) != near;
                    continue;
                }
                if past && it.c.is_none() && last.as_ref() != Some(&it.set) {
                    Rc::make_mut(&mut st.texts)[t].items[i].set = scalar();
                    last = None;
                } else {
                    past |= !it.set.minus(&run).is_empty();
                    last = if past { Some(it.set.clone()) } else { None };
                }
            }
        }
        loop {
            let items = st.texts[t].items.clone();
            let can = |i: usize| {
                let (a, b) = (&items[i], &items[i + 1]);
                if a.input || b.input || a.c.is_some() || b.c.is_some() || a.right != b.right {
                    return false;
                }
                lins.iter().all(|l| {
                    let k = |s: Sym| l.t.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0);
                    k(a.len) == k(b.len)
                })
            };
            let rep = |i: usize| !items[i].input && items[i].c.is_none();
            for i in 0..items.len() {
                let followed = if back { i > 0 && rep(i - 1) } else { i + 1 < items.len() && rep(i + 1) };
                let next = if back { i.wrapping_sub(1) } else { i + 1 };
                if !tuned && rep(i) && followed && !stuck(&items[i].set, &items[next].set) {
                    let mut o = items[i].set.clone();
                    for g in groups.iter() {
                        if !g.intersect(&o).is_empty() {
                            o = o.union(g);
                        }
                    }
                    Rc::make_mut(&mut st.texts)[t].items[i].set = o;
                }
            }
            let items = st.texts[t].items.clone();
            let mut pick = None;
            for i in 0..items.len().saturating_sub(1) {
                if can(i) && (items[i].set == items[i + 1].set || !apart(&items[i].set, &items[i + 1].set)) {
                    pick = Some(i);
                    break;
                }
            }
            if pick.is_none() {
                // more than KEEP repetitions in a row
                let ok: Vec<bool> = (0..items.len().saturating_sub(1)).map(|i| can(i)).collect();
                let mut i = 0;
                while i < ok.len() {
                    let mut j = i;
                    while j < ok.len() && ok[j] {
                        j += 1;
                    }
                    if !tuned && j - i + 1 > self.fix.reps {
                        pick = Some(if back { j - 1 } else { i });
                        break;
                    }
                    i = j + 1;
                }
            }
            let i = match pick {
                Some(x) => x,
                None => break,
            };
            let mut set = close(&items[i].set.union(&items[i + 1].set));
            if !apart(&items[i].set, &items[i + 1].set) {
                for g in groups.iter() {
                    if !g.intersect(&set).is_empty() {
                        set = set.union(g);
                    }
                }
            }
            let (a, b) = (items[i].len, items[i + 1].len);
            let lo = least(&set, st.set(a).min() + st.set(b).min());
            let m = st.fresh_sym(ISet::range(lo, BIG));
            let by = lin_comb(&Num::sym(m).lin().unwrap(), 1, &Num::sym(b).lin().unwrap(), -1).unwrap();
            st.subst(a, &by)?;
            let v = &mut Rc::make_mut(&mut st.texts)[t].items;
            let right = v[i].right;
            v[i] = Item { c: None, set, len: m, input: false, rec: 0, right };
            v.remove(i + 1);
            lins.clear();
            for f in &st.frames {
                f.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
            }
            st.heap.iter().for_each(|v| lins_val(v, &mut lins, &mut opaque));
        }
        Ok(())
    }

    fn rename(&mut self, st: State, m: &Mark) -> R<State> {
        let mut order: Vec<Sym> = vec![];
        let mut map: HashMap<Sym, Sym> = HashMap::new();
        let mut hmap: HashMap<usize, usize> = HashMap::new();
        let mut horder: Vec<usize> = vec![];
        let mut tmap: HashMap<usize, usize> = HashMap::new();
        let mut torder: Vec<usize> = vec![];
        fn see(s: Sym, map: &mut HashMap<Sym, Sym>, order: &mut Vec<Sym>) {
            if !map.contains_key(&s) {
                map.insert(s, order.len() as Sym);
                order.push(s);
            }
        }
        fn walk(
            v: &Val,
            map: &mut HashMap<Sym, Sym>,
            order: &mut Vec<Sym>,
            hmap: &mut HashMap<usize, usize>,
            horder: &mut Vec<usize>,
            tmap: &mut HashMap<usize, usize>,
            torder: &mut Vec<usize>,
        ) {
            let mut num = |n: &Num| {
                let mut s = vec![];
                n.syms(&mut s);
                for x in s {
                    see(x, map, order);
                }
            };
            match v {
                Val::Num(n) => num(n),
                Val::Agg(f) => f.iter().for_each(|x| walk(x, map, order, hmap, horder, tmap, torder)),
                Val::Enum(n, f) => {
                    num(n);
                    f.iter().for_each(|x| walk(x, map, order, hmap, horder, tmap, torder))
                }
                Val::Ptr(p) => {
                    for e in &p.path {
                        if let P::N(n) = e {
                            num(n)
                        }
                    }
                    if let Meta::Len(n) = &p.meta {
                        num(n)
                    }
                    match p.base {
                        Base::Heap(h) => {
                            if !hmap.contains_key(&h) {
                                hmap.insert(h, horder.len());
                                horder.push(h);
                            }
                        }
                        Base::Text(t) => {
                            if !tmap.contains_key(&t) {
                                tmap.insert(t, torder.len());
                                torder.push(t);
                            }
                        }
                        _ => {}
                    }
                }
                Val::Nat(n) => {
                    if let Nat::Vec(f) = &**n {
                        f.iter().for_each(|x| walk(x, map, order, hmap, horder, tmap, torder))
                    }
                }
                _ => {}
            }
        }
        let mut ts: Vec<usize> = m.texts.iter().copied().collect();
        ts.sort();
        for t in ts {
            st.texts[t].items.iter().for_each(|i| see(i.len, &mut map, &mut order));
        }
        for f in &st.frames {
            for v in f.iter() {
                walk(v, &mut map, &mut order, &mut hmap, &mut horder, &mut tmap, &mut torder);
            }
        }
        let (mut hi, mut ti) = (0, 0);
        while hi < horder.len() || ti < torder.len() {
            while hi < horder.len() {
                let v = st.heap[horder[hi]].clone();
                walk(&v, &mut map, &mut order, &mut hmap, &mut horder, &mut tmap, &mut torder);
                hi += 1;
            }
            while ti < torder.len() {
                let t = &st.texts[torder[ti]];
                see(t.addr, &mut map, &mut order);
                for i in &t.items {
                    if let Some(c) = i.c {
                        see(c, &mut map, &mut order);
                    }
                    see(i.len, &mut map, &mut order);
                }
                if let Some((v, _)) = t.mon.clone() {
                    walk(&v, &mut map, &mut order, &mut hmap, &mut horder, &mut tmap, &mut torder);
                }
                ti += 1;
            }
        }
        fn ren(
            v: &mut Val,
            map: &HashMap<Sym, Sym>,
            hmap: &HashMap<usize, usize>,
            tmap: &HashMap<usize, usize>,
        ) {
            let rn = |n: &mut Num| {
                *n = match &*n {
                    Num::C(c) => Num::C(*c),
                    Num::L(l) => {
                        let mut t: Vec<(Sym, I)> = l.t.iter().map(|(s, k)| (map[s], *k)).collect();
                        t.sort();
                        Num::L(Rc::new(Lin { t, c: l.c }))
                    }
                    Num::F(s, e) => Num::F(map[s], e.clone()),
                }
            };
            match v {
                Val::Num(n) => rn(n),
                Val::Agg(f) => Rc::make_mut(f).iter_mut().for_each(|x| ren(x, map, hmap, tmap)),
                Val::Enum(n, f) => {
                    rn(n);
                    Rc::make_mut(f).iter_mut().for_each(|x| ren(x, map, hmap, tmap))
                }
                Val::Ptr(p) => {
                    let q = Rc::make_mut(p);
                    for e in q.path.iter_mut() {
                        if let P::N(n) = e {
                            rn(n)
                        }
                    }
                    if let Meta::Len(n) = &mut q.meta {
                        rn(n)
                    }
                    match &mut q.base {
                        Base::Heap(h) => *h = hmap[h],
                        Base::Text(t) => *t = tmap[t],
                        _ => {}
                    }
                }
                Val::Nat(n) => {
                    if let Nat::Vec(f) = Rc::make_mut(n) {
                        f.iter_mut().for_each(|x| ren(x, map, hmap, tmap))
                    }
                }
                _ => {}
            }
        }
        let mut out = State::new();
        out.syms = Rc::new(order.iter().map(|s| st.set(*s).clone()).collect());
        out.frames = st
            .frames
            .iter()
            .map(|f| {
                let mut f2 = (**f).clone();
                f2.iter_mut().for_each(|v| ren(v, &map, &hmap, &tmap));
                Rc::new(f2)
            })
            .collect();
        out.heap = Rc::new(
            horder
                .iter()
                .map(|h| {
                    let mut v = st.heap[*h].clone();
                    ren(&mut v, &map, &hmap, &tmap);
                    v
                })
                .collect(),
        );
        out.texts = Rc::new(
            torder
                .iter()
                .map(|t| {
                    let mut t = st.texts[*t].clone();
                    t.addr = map[&t.addr];
                    for i in t.items.iter_mut() {
                        i.c = i.c.map(|c| map[&c]);
                        i.len = map[&i.len];
                    }
                    if let Some((v, _)) = &mut t.mon {
                        ren(v, &map, &hmap, &tmap);
                    }
                    t
                })
                .collect(),
        );
        let mut cons = BTreeMap::new();
        for (k, b) in st.cons.iter() {
            if k.iter().all(|x| map.contains_key(&x.0)) {
                let mut t: Vec<(Sym, I)> = k.iter().map(|x| (map[&x.0], x.1)).collect();
                t.sort();
                let l = Lin { t, c: 0 };
                let (nk, _, _, neg) = norm_key(&l);
                cons.insert(nk, if neg { (-b.1, -b.0) } else { *b });
            }
        }
        out.cons = Rc::new(cons);
        out.events = st.events.clone();
        out.nroots = st.nroots;
        out.hist = st.hist.clone();
        out.dirty = st.dirty;
        Ok(out)
    }
}

fn m2(_st: &State) -> Mark {
    Mark { loc: HashSet::new(), heap: BTreeSet::new(), texts: BTreeSet::new() }
}

/// characters read (direction, index, value) in reading order; those read backwards are marked
pub fn note(hist: &mut Vec<I>, mut v: Vec<(u8, usize, I)>) {
    v.sort_by_key(|x| if x.0 == 2 { -(x.1 as i64) } else { x.1 as i64 });
    hist.extend(v.into_iter().map(|x| if x.0 == 2 { x.2 | LEFT } else { x.2 }));
}
pub const LEFT: I = 1 << 32;

pub fn sample(s: &ISet) -> I {
    // prefer a printable representative
    for (a, b) in [(0x61, 0x7A), (0x30, 0x39), (0x21, 0x7E)] {
        let x = s.clip(a, b);
        if !x.is_empty() {
            return x.min();
        }
    }
    if s.is_empty() { -1 } else { s.min() }
}

fn skel(v: &Val, h: &mut impl std::hash::Hasher) {
    use std::hash::Hash;
    match v {
        Val::Num(Num::C(_)) => 1u8.hash(h),
        Val::Num(n) => n.hash(h),
        Val::Agg(f) => {
            2u8.hash(h);
            f.iter().for_each(|x| skel(x, h))
        }
        Val::Enum(n, f) => {
            n.hash(h);
            f.iter().for_each(|x| skel(x, h))
        }
        Val::Ptr(p) => p.hash(h),
        Val::Fn(i) => i.hash(h),
        Val::Nat(n) => n.hash(h),
        Val::Undef => 3u8.hash(h),
    }
}
fn each_leaf(v: &mut Val, f: &mut dyn FnMut(&mut Val)) {
    match v {
        Val::Agg(x) | Val::Enum(_, x) => Rc::make_mut(x).iter_mut().for_each(|y| each_leaf(y, f)),
        _ => f(v),
    }
}
fn has_grown(v: &Val) -> bool {
    match v {
        Val::Num(Num::L(l)) => l.t.len() == 1 && l.t[0].1 == 2 && (l.c > 1 || l.c < 0),
        Val::Agg(x) | Val::Enum(_, x) => x.iter().any(has_grown),
        _ => false,
    }
}
fn each_const(v: &mut Val, f: &mut dyn FnMut(&mut Val)) {
    match v {
        Val::Num(Num::C(_)) => f(v),
        Val::Agg(x) | Val::Enum(_, x) => Rc::make_mut(x).iter_mut().for_each(|y| each_const(y, f)),
        _ => {}
    }
}
fn consts_val(v: &Val, out: &mut Vec<I>) {
    match v {
        Val::Num(Num::C(c)) => out.push(*c),
        Val::Agg(x) | Val::Enum(_, x) => x.iter().for_each(|y| consts_val(y, out)),
        _ => {}
    }
}
fn consts_state(s: &State, out: &mut Vec<I>) {
    for f in &s.frames {
        f.iter().for_each(|v| consts_val(v, out));
    }
    s.heap.iter().for_each(|v| consts_val(v, out));
}

pub fn refs_state(v: &Val) -> bool {
    match v {
        Val::Agg(f) | Val::Enum(_, f) => f.iter().any(refs_state),
        Val::Ptr(p) => matches!(p.base, Base::Heap(_) | Base::Local(..) | Base::Text(_)),
        Val::Nat(_) => true,
        _ => false,
    }
}

pub fn text_add(p: &Ptr, n: &Num) -> R<Val> {
    let mut q = p.clone();
    q.path = vec![P::N(add_lin(&text_pos(p)?, n, 1)?)];
    Ok(Val::Ptr(Rc::new(q)))
}
/// the address of a position as an integer
pub fn text_addr(st: &State, p: &Ptr) -> R<Num> {
    match p.base {
        Base::Text(t) => add_lin(&Num::sym(st.texts[t].addr), &text_pos(p)?, 1),
        _ => Err("address".into()),
    }
}
pub fn text_pos(p: &Ptr) -> R<Num> {
    match p.path.as_slice() {
        [P::N(n)] => Ok(n.clone()),
        _ => Err("text pointer".into()),
    }
}
fn repoint(v: &Val, pos: &Num) -> Val {
    match v {
        Val::Ptr(p) => {
            let mut q = (**p).clone();
            q.path = vec![P::N(pos.clone())];
            Val::Ptr(Rc::new(q))
        }
        Val::Agg(f) => Val::Agg(Rc::new(f.iter().map(|x| repoint(x, pos)).collect())),
        v => v.clone(),
    }
}

pub fn dump_val(v: &Val) -> String {
    let num = |n: &Num| match n {
        Num::C(c) => format!("{c}"),
        Num::L(l) => {
            let mut s: Vec<String> = l.t.iter().map(|(x, k)| if *k == 1 { format!("s{x}") } else { format!("{k}*s{x}") }).collect();
            if l.c != 0 {
                s.push(format!("{}", l.c));
            }
            s.join("+")
        }
        Num::F(s, _) => format!("f(s{s})"),
    };
    match v {
        Val::Num(n) => num(n),
        Val::Agg(f) => format!("({})", f.iter().map(dump_val).collect::<Vec<_>>().join(",")),
        Val::Enum(n, f) => format!("#{}{}", num(n), if f.is_empty() { String::new() } else { format!("({})", f.iter().map(dump_val).collect::<Vec<_>>().join(",")) }),
        Val::Ptr(p) => format!(
            "&{:?}{}{}",
            p.base,
            p.path.iter().map(|e| match e { P::F(i) => format!(".{i}"), P::I(i) => format!("[{i}]"), P::N(n) => format!("@{}", num(n)) }).collect::<String>(),
            match &p.meta { Meta::Len(n) => format!("#{}", num(n)), _ => String::new() }
        ),
        Val::Fn(i) => format!("fn {}", i.name()),
        Val::Nat(n) => format!("{n:?}"),
        Val::Undef => "_".into(),
    }
}
pub fn dump(st: &State) -> String {
    let mut o = String::new();
    for (i, f) in st.frames.iter().enumerate() {
        o += &format!("\n  f{i}:");
        for (l, v) in f.iter().enumerate() {
            if !matches!(v, Val::Undef) {
                o += &format!(" _{l}={}", dump_val(v));
            }
        }
    }
    for (i, v) in st.heap.iter().enumerate() {
        o += &format!("\n  h{i}: {}", dump_val(v));
    }
    let set = |s: &ISet| if s.0.len() > 4 { format!("<{} in {} ranges from {:x}>", s.count(), s.0.len(), s.min()) } else { s.0.iter().map(|r| format!("{:x}-{:x}", r.0, r.1)).collect::<Vec<_>>().join(",") };
    for t in st.texts.iter() {
        o += "\n  text:";
        for i in &t.items {
            match i.c {
                Some(c) => o += &format!(" [c s{c} {} len s{} {}]", set(st.set(c)), i.len, set(st.set(i.len))),
                None => o += &format!(" ({}{} len s{} {})*", if i.input { "input " } else { "" }, set(&i.set), i.len, set(st.set(i.len))),
            }
        }
    }
    if !st.cons.is_empty() {
        o += &format!("\n  cons {:?}", st.cons);
    }
    o
}
