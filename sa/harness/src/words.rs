//! Word boundaries: UAX #29 (revision 31, Unicode 10.0), rules WB1..WB999, as an automaton over the
//! Word_Break values, against the iterators of `unic::segment`.
use crate::lazy;
use unic::segment::{WordBoundIndices, WordBounds, Words};
use unic::ucd::segment::WordBreak as WB;

/// effective class of the character before the position (after WB4)
#[derive(Clone, Copy, PartialEq)]
enum L { Sot, CR, Hard, AL, HL, Num, Kat, Enl, RI1, RI2, Base, Other, Mid(MidKind) }
/// `left Mid` whose inner boundary depends on the next character
#[derive(Clone, Copy, PartialEq)]
enum MidKind { Letter, HDouble, Num }

pub struct Spec {
    left: L,
    zwj: bool,
    /// position of the undecided boundary (before the Mid character)
    pend: usize,
    /// end of the text read so far
    end: usize,
    /// decided breaks not consumed yet
    q: [usize; 3],
    n: usize,
    /// characters read since the first of them was decided
    over: u8,
}

impl Spec {
    pub fn new() -> Spec {
        Spec { left: L::Sot, zwj: false, pend: 0, end: 0, q: [0; 3], n: 0, over: 0 }
    }
    fn brk(&mut self, p: usize) {
        self.q[self.n] = p;
        self.n += 1;
    }
    pub fn step(&mut self, pos: usize, c: char) {
        if self.n > 0 {
            self.over += 1;
            if self.n > 1 || self.over > 2 {
                lazy::overrun();
            }
        }
        let w = WB::of(c);
        let zwj = self.zwj;
        self.zwj = w == WB::ZWJ;
        self.end = pos + c.len_utf8();
        let hard = matches!(w, WB::CR | WB::LF | WB::Newline);
        let ahl = matches!(w, WB::ALetter | WB::HebrewLetter);
        // the class c has as a left context
        let as_left = match w {
            WB::CR => L::CR,
            WB::LF | WB::Newline => L::Hard,
            WB::ALetter => L::AL,
            WB::HebrewLetter => L::HL,
            WB::Numeric => L::Num,
            WB::Katakana => L::Kat,
            WB::ExtendNumLet => L::Enl,
            WB::RegionalIndicator => L::RI1,
            WB::EBase | WB::EBaseGAZ => L::Base,
            _ => L::Other,
        };
        match self.left {
            L::Sot => {
                self.left = as_left;
                return;
            }
            L::CR if w == WB::LF => {
                self.left = as_left; // WB3
                return;
            }
            L::CR | L::Hard => {
                self.brk(pos); // WB3a
                self.left = as_left;
                return;
            }
            _ => {}
        }
        if !hard {
            // WB3c before WB4
            if zwj && matches!(w, WB::GlueAfterZwj | WB::EBaseGAZ) {
                self.settle(false);
                self.left = as_left;
                return;
            }
            if matches!(w, WB::Extend | WB::Format | WB::ZWJ) {
                return; // WB4
            }
        }
        if let L::Mid(k) = self.left {
            let ok = match k {
                MidKind::Letter => ahl,
                MidKind::HDouble => w == WB::HebrewLetter,
                MidKind::Num => w == WB::Numeric,
            };
            self.settle(ok);
            if ok {
                self.left = as_left; // WB7, WB7c, WB11
                return;
            }
            self.brk(pos); // a Mid character joins nothing else
            self.left = as_left;
            return;
        }
        let mid_num_let_q = matches!(w, WB::MidNumLet | WB::SingleQuote);
        let mid_letter = w == WB::MidLetter || mid_num_let_q;
        let join = match (self.left, w) {
            (L::AL, WB::ALetter) | (L::AL, WB::HebrewLetter) | (L::HL, WB::ALetter) | (L::HL, WB::HebrewLetter) => true, // WB5
            (L::HL, WB::SingleQuote) => {
                // WB7a; WB7 may join what follows
                self.left = L::Mid(MidKind::Letter);
                self.pend = usize::MAX;
                return;
            }
            (L::AL, _) | (L::HL, _) if mid_letter => {
                self.left = L::Mid(MidKind::Letter);
                self.pend = pos;
                return;
            }
            (L::HL, WB::DoubleQuote) => {
                self.left = L::Mid(MidKind::HDouble);
                self.pend = pos;
                return;
            }
            (L::Num, WB::Numeric) => true,                                                   // WB8
            (L::AL, WB::Numeric) | (L::HL, WB::Numeric) => true,                             // WB9
            (L::Num, WB::ALetter) | (L::Num, WB::HebrewLetter) => true,                      // WB10
            (L::Num, WB::MidNum) | (L::Num, WB::MidNumLet) | (L::Num, WB::SingleQuote) => {
                self.left = L::Mid(MidKind::Num);
                self.pend = pos;
                return;
            }
            (L::Kat, WB::Katakana) => true,                                                  // WB13
            (L::AL, WB::ExtendNumLet) | (L::HL, WB::ExtendNumLet) | (L::Num, WB::ExtendNumLet)
            | (L::Kat, WB::ExtendNumLet) | (L::Enl, WB::ExtendNumLet) => true,               // WB13a
            (L::Enl, WB::ALetter) | (L::Enl, WB::HebrewLetter) | (L::Enl, WB::Numeric) | (L::Enl, WB::Katakana) => true, // WB13b
            (L::Base, WB::EModifier) => true,                                                // WB14
            (L::RI1, WB::RegionalIndicator) => {
                self.left = L::RI2;                                                          // WB15, WB16
                return;
            }
            _ => false,
        };
        if !join {
            self.brk(pos);
        }
        self.left = as_left;
    }
    fn settle(&mut self, join: bool) {
        if let L::Mid(_) = self.left {
            if !join && self.pend != usize::MAX {
                self.brk(self.pend);
            }
            self.left = L::Other;
            self.pend = 0;
        }
    }
    /// end of the text: WB2
    fn finish(&mut self) {
        self.settle(false);
        if self.left != L::Sot {
            let e = self.end;
            self.brk(e);
        }
    }
}

/// characters WB4 skips
fn skipped(c: char) -> u8 {
    match WB::of(c) {
        WB::Extend | WB::Format => 0x10,
        WB::ZWJ => 0x11,
        _ => 0,
    }
}

/// read on until the next break is known; None: there is none
fn next_break(s: &'static str, m: &mut Spec, done: &mut bool) -> Option<usize> {
    while m.n == 0 && !*done {
        if s[m.end..].chars().next().is_none() {
            m.finish();
            *done = true;
        }
    }
    if m.n == 0 {
        return None;
    }
    let r = m.q[0];
    m.q[0] = m.q[1];
    m.q[1] = m.q[2];
    m.q[2] = 0;
    m.n -= 1;
    m.over = 0;
    Some(r)
}

pub fn forward() -> bool {
    let (s, m) = lazy::text(Spec::new(), Spec::step, skipped);
    let mut it = WordBounds::new(s);
    let (mut at, mut done) = (0, false);
    loop {
        let w = it.next();
        let b = next_break(s, m, &mut done);
        match (w, b) {
            (None, None) => return true,
            (Some(w), Some(b)) => {
                if w.as_ptr() as usize - s.as_ptr() as usize != at || at + w.len() != b || it.as_str().len() != s.len() - b {
                    return false;
                }
                at = b;
            }
            _ => return false,
        }
    }
}

// ---- backwards: the last boundary before the end of the text
/// the rules that join two neighbouring units (after WB4), whatever surrounds them
fn joined(u: WB, v: WB) -> bool {
    let ahl = |x| matches!(x, WB::ALetter | WB::HebrewLetter);
    match v {
        WB::ALetter | WB::HebrewLetter => ahl(u) || matches!(u, WB::Numeric | WB::ExtendNumLet), // WB5, WB10, WB13b
        WB::Numeric => ahl(u) || matches!(u, WB::Numeric | WB::ExtendNumLet),                    // WB8, WB9, WB13b
        WB::Katakana => matches!(u, WB::Katakana | WB::ExtendNumLet),                            // WB13, WB13b
        WB::ExtendNumLet => ahl(u) || matches!(u, WB::Numeric | WB::Katakana | WB::ExtendNumLet), // WB13a
        WB::SingleQuote => u == WB::HebrewLetter,                                                // WB7a
        WB::EModifier => matches!(u, WB::EBase | WB::EBaseGAZ),                                  // WB14
        _ => false,
    }
}
/// whether `mid` may join `w` to what precedes it, and to what
fn bridge(mid: WB, w: WB) -> Option<MidKind> {
    match (mid, w) {
        (WB::MidLetter, WB::ALetter) | (WB::MidLetter, WB::HebrewLetter) => Some(MidKind::Letter),
        (WB::MidNumLet, WB::ALetter) | (WB::MidNumLet, WB::HebrewLetter) => Some(MidKind::Letter),
        (WB::SingleQuote, WB::ALetter) | (WB::SingleQuote, WB::HebrewLetter) => Some(MidKind::Letter),
        (WB::DoubleQuote, WB::HebrewLetter) => Some(MidKind::HDouble),
        (WB::MidNum, WB::Numeric) | (WB::MidNumLet, WB::Numeric) | (WB::SingleQuote, WB::Numeric) => Some(MidKind::Num),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Scan {
    /// nothing but the last unit's tail so far
    Start,
    /// `v` begins at `p`
    Unit,
    /// a Mid character precedes the unit at `p`
    Mid(MidKind),
    /// `p` begins a regional indicator that follows others
    Flags { odd: bool, flag: usize },
}
pub struct Last { start: usize, tail: bool, zwj: bool, scan: Scan, v: WB, p: usize, found: Option<usize> }
impl Last {
    fn new() -> Last { Last { start: 0, tail: false, zwj: false, scan: Scan::Start, v: WB::Other, p: 0, found: None } }
    fn unit(&mut self, pos: usize, w: WB) {
        self.scan = Scan::Unit;
        self.v = w;
        self.p = pos;
        self.tail = false;
        self.zwj = false;
    }
    pub fn step(&mut self, pos: usize, c: char) {
        let before = self.start;
        self.start = pos;
        if self.found.is_some() {
            return;
        }
        let w = WB::of(c);
        if matches!(w, WB::Extend | WB::Format | WB::ZWJ) && !matches!(self.scan, Scan::Unit if self.hard()) {
            if !self.tail {
                self.zwj = w == WB::ZWJ;
            }
            self.tail = true;
            return;
        }
        if matches!(w, WB::CR | WB::LF | WB::Newline) {
            if self.scan == Scan::Start && !self.tail {
                return self.unit(pos, w);
            }
            if self.scan == Scan::Unit && self.v == WB::LF && w == WB::CR {
                self.found = Some(pos); // WB3
                return;
            }
            return self.edge(before);
        }
        match self.scan {
            Scan::Start => self.unit(pos, w),
            Scan::Unit => {
                if self.hard() {
                    self.found = Some(self.p); // WB3a, WB3b
                } else if self.zwj && matches!(self.v, WB::GlueAfterZwj | WB::EBaseGAZ) || joined(w, self.v) {
                    self.unit(pos, w);
                } else if w == WB::RegionalIndicator && self.v == w {
                    self.scan = Scan::Flags { odd: true, flag: pos };
                    self.tail = false;
                } else if let Some(k) = bridge(w, self.v) {
                    self.scan = Scan::Mid(k);
                    self.tail = false;
                } else {
                    self.found = Some(self.p);
                }
            }
            Scan::Mid(k) => {
                let ok = match k {
                    MidKind::Letter => matches!(w, WB::ALetter | WB::HebrewLetter),
                    MidKind::HDouble => w == WB::HebrewLetter,
                    MidKind::Num => w == WB::Numeric,
                };
                if ok {
                    self.unit(pos, w);
                } else {
                    self.found = Some(self.p);
                }
            }
            Scan::Flags { odd, flag } => {
                if w == WB::RegionalIndicator {
                    self.scan = Scan::Flags { odd: !odd, flag };
                } else {
                    self.found = Some(if odd { flag } else { self.p });
                }
            }
        }
    }
    fn hard(&self) -> bool { matches!(self.v, WB::CR | WB::LF | WB::Newline) }
    /// the start of the text, or a line break, precedes `first`
    fn edge(&mut self, first: usize) {
        self.found = Some(match self.scan {
            Scan::Start => first,
            // the tail is a unit of its own
            Scan::Unit if self.zwj && !self.hard() && matches!(self.v, WB::GlueAfterZwj | WB::EBaseGAZ) => first,
            Scan::Unit | Scan::Mid(_) => self.p,
            Scan::Flags { odd: true, flag } => flag,
            Scan::Flags { .. } => self.p,
        });
    }
}
fn back_class(c: char) -> u8 {
    match WB::of(c) {
        WB::Extend | WB::Format | WB::ZWJ => 0x10,
        WB::RegionalIndicator => 4,
        _ => 0,
    }
}
fn last_break(s: &'static str, m: &mut Last) -> Option<usize> {
    if m.start == s.len() {
        s.chars().next_back()?;
    }
    while m.found.is_none() && s[..m.start].chars().next_back().is_some() {}
    if m.found.is_none() {
        m.edge(0);
    }
    m.found
}
pub fn backward() -> bool {
    lazy::tune(0, 3);
    let (s, m) = lazy::text_back(Last::new(), Last::step, back_class);
    m.start = s.len();
    let mut it = WordBounds::new(s);
    let w = it.next_back();
    let b = last_break(s, m);
    match (w, b) {
        (None, None) => true,
        (Some(w), Some(b)) => w.as_ptr() as usize - s.as_ptr() as usize == b && w.len() == s.len() - b && it.as_str().len() == b && it.as_str().as_ptr() == s.as_ptr(),
        _ => false,
    }
}
fn same(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.as_ptr() == b.as_ptr() && a.len() == b.len(),
        _ => false,
    }
}
/// however next and next_back alternate on a text of at most three characters, each gives
/// what a new iterator over the rest gives
pub fn mixed() -> bool {
    lazy::tune(0, 99);
    let (s, _) = lazy::text((), |_, _, _| (), |_| 0);
    let mut k = s.chars();
    if k.next().is_some() && k.next().is_some() && k.next().is_some() && k.next().is_some() {
        return true;
    }
    let mut it = WordBounds::new(s);
    let mut rest = s;
    loop {
        let mut fresh = WordBounds::new(rest);
        let (a, b) = if lazy::choice() { (it.next(), fresh.next()) } else { (it.next_back(), fresh.next_back()) };
        if !same(a, b) || !same(Some(it.as_str()), Some(fresh.as_str())) {
            return false;
        }
        if a.is_none() {
            return true;
        }
        rest = fresh.as_str();
    }
}
pub fn forward_indices() -> bool {
    let (s, m) = lazy::text(Spec::new(), Spec::step, skipped);
    let mut it = WordBoundIndices::new(s);
    let (mut at, mut done) = (0, false);
    loop {
        let w = it.next();
        let b = next_break(s, m, &mut done);
        match (w, b) {
            (None, None) => return true,
            (Some((i, w)), Some(b)) => {
                if i != at || w.as_ptr() as usize - s.as_ptr() as usize != at || at + w.len() != b || it.as_str().len() != s.len() - b {
                    return false;
                }
                at = b;
            }
            _ => return false,
        }
    }
}
pub fn backward_indices() -> bool {
    lazy::tune(0, 3);
    let (s, m) = lazy::text_back(Last::new(), Last::step, back_class);
    m.start = s.len();
    let mut it = WordBoundIndices::new(s);
    let w = it.next_back();
    let b = last_break(s, m);
    match (w, b) {
        (None, None) => true,
        (Some((i, w)), Some(b)) => i == b && w.as_ptr() as usize - s.as_ptr() as usize == b && w.len() == s.len() - b && it.as_str().len() == b && it.as_str().as_ptr() == s.as_ptr(),
        _ => false,
    }
}
fn long(w: &&str) -> bool { w.len() > 1 }
/// the words a filter accepts, in order and no others, from both ends; texts of at most three characters
pub fn filtered() -> bool {
    lazy::tune(0, 99);
    let (s, _) = lazy::text((), |_, _, _| (), |_| 0);
    let mut k = s.chars();
    if k.next().is_some() && k.next().is_some() && k.next().is_some() && k.next().is_some() {
        return true;
    }
    let mut it = Words::new(s, long);
    let mut all = WordBounds::new(s);
    loop {
        let front = lazy::choice();
        let mut b = if front { all.next() } else { all.next_back() };
        while let Some(w) = b {
            if w.len() > 1 {
                break;
            }
            b = if front { all.next() } else { all.next_back() };
        }
        let a = if front { it.next() } else { it.next_back() };
        if !same(a, b) {
            return false;
        }
        if a.is_none() {
            return true;
        }
    }
}
