//! Abstract integers: interval sets, linear forms over symbols, unary expressions over one symbol.
use std::rc::Rc;

pub type I = i128;
pub type Sym = u32;

/// A finite union of disjoint, non-adjacent, sorted closed intervals.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ISet(pub Rc<Vec<(I, I)>>);

impl ISet {
    pub fn empty() -> ISet {
        ISet(Rc::new(vec![]))
    }
    pub fn range(lo: I, hi: I) -> ISet {
        if lo > hi { ISet::empty() } else { ISet(Rc::new(vec![(lo, hi)])) }
    }
    pub fn from_vec(mut v: Vec<(I, I)>) -> ISet {
        v.retain(|r| r.0 <= r.1);
        v.sort();
        let mut out: Vec<(I, I)> = Vec::with_capacity(v.len());
        for (lo, hi) in v {
            if let Some(l) = out.last_mut() {
                if lo <= l.1 + 1 {
                    if hi > l.1 {
                        l.1 = hi;
                    }
                    continue;
                }
            }
            out.push((lo, hi));
        }
        ISet(Rc::new(out))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn min(&self) -> I {
        self.0[0].0
    }
    pub fn max(&self) -> I {
        self.0[self.0.len() - 1].1
    }
    pub fn count(&self) -> I {
        self.0.iter().map(|r| r.1 - r.0 + 1).sum()
    }
    pub fn single(&self) -> Option<I> {
        if self.0.len() == 1 && self.0[0].0 == self.0[0].1 { Some(self.0[0].0) } else { None }
    }
    pub fn contains(&self, v: I) -> bool {
        let i = self.0.partition_point(|r| r.1 < v);
        i < self.0.len() && self.0[i].0 <= v
    }
    pub fn union(&self, o: &ISet) -> ISet {
        if Rc::ptr_eq(&self.0, &o.0) {
            return self.clone();
        }
        let mut v = (*self.0).clone();
        v.extend(o.0.iter().copied());
        ISet::from_vec(v)
    }
    pub fn intersect(&self, o: &ISet) -> ISet {
        let (a, b) = (&self.0, &o.0);
        let (mut i, mut j) = (0, 0);
        let mut out = vec![];
        while i < a.len() && j < b.len() {
            let lo = a[i].0.max(b[j].0);
            let hi = a[i].1.min(b[j].1);
            if lo <= hi {
                out.push((lo, hi));
            }
            if a[i].1 < b[j].1 { i += 1 } else { j += 1 }
        }
        ISet(Rc::new(out))
    }
    pub fn minus(&self, o: &ISet) -> ISet {
        let mut out = vec![];
        let mut j = 0;
        let b = &o.0;
        for &(lo, hi) in self.0.iter() {
            let mut cur = lo;
            while j < b.len() && b[j].1 < cur {
                j += 1;
            }
            let mut k = j;
            while k < b.len() && b[k].0 <= hi {
                if b[k].0 > cur {
                    out.push((cur, b[k].0 - 1));
                }
                cur = cur.max(b[k].1 + 1);
                k += 1;
            }
            if cur <= hi {
                out.push((cur, hi));
            }
        }
        ISet(Rc::new(out))
    }
    pub fn clip(&self, lo: I, hi: I) -> ISet {
        if self.is_empty() || (lo <= self.min() && hi >= self.max()) {
            return self.clone();
        }
        let s = self.0.partition_point(|r| r.1 < lo);
        let mut out = vec![];
        for &(a, b) in &self.0[s..] {
            if a > hi {
                break;
            }
            out.push((a.max(lo), b.min(hi)));
        }
        ISet(Rc::new(out))
    }
    /// Elements satisfying `f`, by enumeration.
    pub fn filter(&self, mut f: impl FnMut(I) -> bool) -> ISet {
        let mut out: Vec<(I, I)> = vec![];
        for &(lo, hi) in self.0.iter() {
            let mut start: Option<I> = None;
            let mut v = lo;
            while v <= hi {
                if f(v) {
                    if start.is_none() {
                        start = Some(v);
                    }
                } else if let Some(s) = start.take() {
                    out.push((s, v - 1));
                }
                v += 1;
            }
            if let Some(s) = start {
                out.push((s, hi));
            }
        }
        ISet::from_vec(out)
    }
    pub fn iter(&self) -> impl Iterator<Item = I> + '_ {
        self.0.iter().flat_map(|r| r.0..=r.1)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IntTy {
    pub bits: u32,
    pub signed: bool,
    pub ischar: bool,
}
impl IntTy {
    pub fn min(&self) -> I {
        if self.signed { if self.bits == 128 { I::MIN } else { -(1i128 << (self.bits - 1)) } } else { 0 }
    }
    pub fn max(&self) -> I {
        if self.ischar {
            return 0x10FFFF;
        }
        if self.signed {
            if self.bits == 128 { I::MAX } else { (1i128 << (self.bits - 1)) - 1 }
        } else if self.bits >= 127 {
            I::MAX
        } else {
            (1i128 << self.bits) - 1
        }
    }
    pub fn wrap(&self, v: I) -> I {
        if self.bits >= 127 {
            return v;
        }
        let m = 1i128 << self.bits;
        let r = v.rem_euclid(m);
        if self.signed && r >= m / 2 { r - m } else { r }
    }
    pub fn full(&self) -> ISet {
        if self.ischar {
            ISet(Rc::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]))
        } else {
            ISet::range(self.min(), self.max())
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    S,
    C(I),
    Bin(Op, Rc<E>, Rc<E>),
    Wrap(IntTy, Rc<E>),
    /// sparse table lookup, filled by summaries (index into Interp tables)
    Tab(Rc<Vec<(I, I)>>, Rc<E>),
}

pub fn op_eval(op: Op, a: I, b: I) -> Option<I> {
    Some(match op {
        Op::Add => a.checked_add(b)?,
        Op::Sub => a.checked_sub(b)?,
        Op::Mul => a.checked_mul(b)?,
        Op::Div => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::Rem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if !(0..127).contains(&b) {
                return None;
            }
            a.checked_mul(1i128 << b)?
        }
        Op::Shr => {
            if !(0..127).contains(&b) {
                return None;
            }
            a >> b
        }
    })
}

impl E {
    pub fn eval(&self, x: I) -> Option<I> {
        match self {
            E::S => Some(x),
            E::C(c) => Some(*c),
            E::Bin(op, a, b) => op_eval(*op, a.eval(x)?, b.eval(x)?),
            E::Wrap(t, a) => Some(t.wrap(a.eval(x)?)),
            E::Tab(t, a) => {
                let k = a.eval(x)?;
                t.binary_search_by_key(&k, |p| p.0).ok().map(|i| t[i].1)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub t: Vec<(Sym, I)>,
    pub c: I,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Num {
    C(I),
    L(Rc<Lin>),
    /// expression over one symbol
    F(Sym, Rc<E>),
}

impl Num {
    pub fn sym(s: Sym) -> Num {
        Num::L(Rc::new(Lin { t: vec![(s, 1)], c: 0 }))
    }
    pub fn as_const(&self) -> Option<I> {
        match self {
            Num::C(c) => Some(*c),
            _ => None,
        }
    }
    pub fn lin(&self) -> Option<Lin> {
        match self {
            Num::C(c) => Some(Lin { t: vec![], c: *c }),
            Num::L(l) => Some((**l).clone()),
            Num::F(..) => None,
        }
    }
    pub fn from_lin(l: Lin) -> Num {
        if l.t.is_empty() { Num::C(l.c) } else { Num::L(Rc::new(l)) }
    }
    /// (symbol, expression) when over exactly one symbol
    pub fn single_expr(&self) -> Option<(Sym, Rc<E>)> {
        match self {
            Num::C(_) => None,
            Num::L(l) => {
                if l.t.len() == 1 {
                    let (s, k) = l.t[0];
                    let mut e = Rc::new(E::S);
                    if k != 1 {
                        e = Rc::new(E::Bin(Op::Mul, e, Rc::new(E::C(k))));
                    }
                    if l.c != 0 {
                        e = Rc::new(E::Bin(Op::Add, e, Rc::new(E::C(l.c))));
                    }
                    Some((s, e))
                } else {
                    None
                }
            }
            Num::F(s, e) => Some((*s, e.clone())),
        }
    }
    pub fn syms(&self, out: &mut Vec<Sym>) {
        match self {
            Num::C(_) => {}
            Num::L(l) => out.extend(l.t.iter().map(|x| x.0)),
            Num::F(s, _) => out.push(*s),
        }
    }
}

pub fn lin_comb(a: &Lin, ka: I, b: &Lin, kb: I) -> Option<Lin> {
    let mut t: Vec<(Sym, I)> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        let (s, k) = if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            let r = (a.t[i].0, a.t[i].1.checked_mul(ka)?);
            i += 1;
            r
        } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
            let r = (b.t[j].0, b.t[j].1.checked_mul(kb)?);
            j += 1;
            r
        } else {
            let r = (a.t[i].0, a.t[i].1.checked_mul(ka)?.checked_add(b.t[j].1.checked_mul(kb)?)?);
            i += 1;
            j += 1;
            r
        };
        if k != 0 {
            t.push((s, k));
        }
    }
    Some(Lin { t, c: a.c.checked_mul(ka)?.checked_add(b.c.checked_mul(kb)?)? })
}

pub fn gcd(a: I, b: I) -> I {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
