//! Abstract values, memory and states.
use crate::num::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Num(Num),
    Agg(Rc<Vec<Val>>),
    /// variant index, fields (fields non-empty only when the index is constant)
    Enum(Num, Rc<Vec<Val>>),
    Ptr(Rc<Ptr>),
    Fn(Instance),
    /// native std object (Vec, String, unknown streams ...)
    Nat(Rc<Nat>),
    Undef,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Nat {
    /// growable array with concretely known length (Vec<T>, String as bytes/chars)
    Vec(Vec<Val>),
    /// opaque token: identity only
    Tok(&'static str, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Local(usize, usize),
    Heap(usize),
    Const(usize),
    Dangling,
    /// abstract text (the path is one symbolic position)
    Text(usize),
    /// a string of which only comparisons with literals are observed
    Atom(usize),
}

/// what is known of such a string
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Atom {
    pub eq: Option<Vec<u8>>,
    pub ci: Option<Vec<u8>>,
    pub ne: Vec<Vec<u8>>,
    pub nci: Vec<Vec<u8>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum P {
    F(usize),
    I(I),
    N(Num),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Meta {
    None,
    Len(Num),
    Vt(Ty),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Vec<P>,
    /// byte offset (Const) or address (Dangling)
    pub off: I,
    pub meta: Meta,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Vec<Val>>>,
    pub heap: Rc<Vec<Val>>,
    pub syms: Rc<Vec<ISet>>,
    pub cons: Rc<BTreeMap<Vec<(Sym, I)>, (I, I)>>,
    pub events: Rc<Vec<Event>>,
    pub nroots: usize,
    pub texts: Rc<Vec<crate::text::Text>>,
    /// a character was read since the last loop head
    pub dirty: bool,
    /// sample of the characters consumed so far
    pub hist: Rc<Vec<I>>,
    pub atoms: Rc<Vec<Atom>>,
    /// results of uninterpreted functions
    pub memo: Rc<Vec<(&'static str, Vec<Val>, Val)>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Event {
    pub tag: &'static str,
    pub site: Rc<str>,
    pub args: Vec<Val>,
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            heap: Rc::new(vec![]),
            syms: Rc::new(vec![]),
            cons: Rc::new(BTreeMap::new()),
            events: Rc::new(vec![]),
            nroots: 0,
            atoms: Rc::new(vec![]),
            memo: Rc::new(vec![]),
            texts: Rc::new(vec![]),
            dirty: false,
            hist: Rc::new(vec![]),
        }
    }
    pub fn fresh(&mut self, set: ISet) -> Num {
        if let Some(c) = set.single() {
            return Num::C(c);
        }
        let v = Rc::make_mut(&mut self.syms);
        v.push(set);
        Num::sym((v.len() - 1) as Sym)
    }
    pub fn set(&self, s: Sym) -> &ISet {
        &self.syms[s as usize]
    }
    pub fn set_sym(&mut self, s: Sym, set: ISet) {
        Rc::make_mut(&mut self.syms)[s as usize] = set;
    }
    pub fn alloc(&mut self, v: Val) -> usize {
        let h = Rc::make_mut(&mut self.heap);
        h.push(v);
        h.len() - 1
    }
    /// interval bounds of a number
    pub fn bounds(&self, n: &Num) -> (I, I) {
        match n {
            Num::C(c) => (*c, *c),
            Num::L(l) => {
                let (mut lo, mut hi) = (l.c, l.c);
                for &(s, k) in &l.t {
                    let st = self.set(s);
                    if st.is_empty() {
                        return (0, -1);
                    }
                    let (a, b) = (st.min().saturating_mul(k), st.max().saturating_mul(k));
                    lo = lo.saturating_add(a.min(b));
                    hi = hi.saturating_add(a.max(b));
                }
                if l.t.len() > 1 && !self.cons.is_empty() {
                    let (key, c, g, neg) = norm_key(l);
                    if let Some(&(clo, chi)) = self.cons.get(&key) {
                        // l = (neg? -1:1)*g*key + c
                        let (a, b) = if neg { (-g * chi, -g * clo) } else { (g.saturating_mul(clo), g.saturating_mul(chi)) };
                        lo = lo.max(a.saturating_add(c));
                        hi = hi.min(b.saturating_add(c));
                    }
                }
                (lo, hi)
            }
            Num::F(s, e) => {
                let st = self.set(*s);
                if st.count() <= 1 << 21 {
                    let (mut lo, mut hi) = (I::MAX, I::MIN);
                    for x in st.iter() {
                        if let Some(v) = e.eval(x) {
                            lo = lo.min(v);
                            hi = hi.max(v);
                        }
                    }
                    (lo, hi)
                } else {
                    ebounds(e, st.min(), st.max())
                }
            }
        }
    }
    /// whether a symbol (or constant) has this value among its possible ones
    pub fn can_be(&self, n: &Num, i: I) -> bool {
        match n.lin() {
            Some(l) if l.t.is_empty() => l.c == i,
            Some(l) if l.t.len() == 1 && l.t[0].1 == 1 => self.set(l.t[0].0).contains(i - l.c),
            _ => true,
        }
    }
    pub fn get_const(&self, n: &Num) -> Option<I> {
        match n {
            Num::C(c) => Some(*c),
            _ => {
                let (a, b) = self.bounds(n);
                if a == b { Some(a) } else { None }
            }
        }
    }
}

pub fn ebounds(e: &E, lo: I, hi: I) -> (I, I) {
    match e {
        E::S => (lo, hi),
        E::C(c) => (*c, *c),
        E::Wrap(t, a) => {
            let (x, y) = ebounds(a, lo, hi);
            if x >= t.min() && y <= t.max() { (x, y) } else { (t.min(), t.max()) }
        }
        E::Bin(op, a, b) => {
            let (a0, a1) = ebounds(a, lo, hi);
            let (b0, b1) = ebounds(b, lo, hi);
            bin_bounds(*op, a0, a1, b0, b1)
        }
        E::Tab(t, _) => {
            (t.iter().map(|p| p.1).min().unwrap_or(0), t.iter().map(|p| p.1).max().unwrap_or(0))
        }
    }
}

pub fn bin_bounds(op: Op, a0: I, a1: I, b0: I, b1: I) -> (I, I) {
    let big = (-(1i128 << 100), 1i128 << 100);
    match op {
        Op::Add => (a0.saturating_add(b0), a1.saturating_add(b1)),
        Op::Sub => (a0.saturating_sub(b1), a1.saturating_sub(b0)),
        Op::Mul => {
            let c = [a0.saturating_mul(b0), a0.saturating_mul(b1), a1.saturating_mul(b0), a1.saturating_mul(b1)];
            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
        }
        Op::Div if b0 > 0 => {
            let c = [a0 / b0, a0 / b1, a1 / b0, a1 / b1];
            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
        }
        Op::Rem if b0 > 0 && a0 >= 0 => (0, (b1 - 1).min(a1)),
        Op::And if a0 >= 0 && b0 >= 0 => (0, a1.min(b1)),
        Op::And if b0 >= 0 => (0, b1),
        Op::And if a0 >= 0 => (0, a1),
        Op::Or | Op::Xor if a0 >= 0 && b0 >= 0 => {
            let m = a1.max(b1) as u128;
            let bits = 128 - m.leading_zeros();
            (0, if bits >= 126 { 1 << 126 } else { (1i128 << bits) - 1 })
        }
        Op::Shl if a0 >= 0 && b0 >= 0 && b1 < 64 => {
            (a0.saturating_mul(1 << b0), a1.saturating_mul(1 << b1))
        }
        Op::Shr if a0 >= 0 && b0 >= 0 && b1 < 127 => (a0 >> b1, a1 >> b0),
        _ => big,
    }
}

/// l = sign*g*key + c with key's first coefficient positive and coprime coefficients.
pub fn norm_key(l: &Lin) -> (Vec<(Sym, I)>, I, I, bool) {
    let mut g = 0;
    for &(_, k) in &l.t {
        g = gcd(g, k);
    }
    let neg = l.t[0].1 < 0;
    let d = if neg { -g } else { g };
    (l.t.iter().map(|&(s, k)| (s, k / d)).collect(), l.c, g, neg)
}
